"""Build and try the planted bugs described in tools/seeds*.py.

    python tools/seed.py build ID...|all     scratch copy, stable tests, demo on both trees -> seeded/ID
    python tools/seed.py try ID...|all       run the property's quick check on a scratch copy with the patch
Everything happens in scratch copies under /tmp/seedwork, removed afterwards.
"""
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
WORK = "/tmp/seedwork"
STABLE = None


def bugs():
    out = {}
    for f in sorted(os.listdir(HERE)):
        if f.startswith("seeds") and f.endswith(".py"):
            for b in importlib.import_module(f[:-3]).BUGS:
                assert b["id"] not in out, b["id"]
                out[b["id"]] = b
    return out


def copy(name):
    d = f"{WORK}/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def apply(b, d):
    for file, old, new in b["edits"]:
        p = f"{d}/src/ellalgo/{file}"
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (b["id"], file, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))


def env(d):
    e = dict(os.environ, PYTHONPATH=f"{d}/src", PYTHONDONTWRITEBYTECODE="1")
    return e


def tests(d):
    s = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {d}")
    open(d + ".test.sh", "w").write(s)
    out = d + ".json"
    r = subprocess.run(["bash", d + ".test.sh", out], env=env(d), capture_output=True, text=True)
    res = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    os.remove(out)
    os.remove(d + ".test.sh")
    return res, base


def flat(x):
    if isinstance(x, dict):
        for k in ("passed", "stable", "tests", "stable_pass"):
            if k in x:
                return flat(x[k])
        return set(k for k, v in x.items() if v in ("passed", True))
    return set(x)


def demo(folder, d):
    r = subprocess.run(["bash", f"{folder}/demo.sh"], cwd=d, env=dict(env(d)), capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


DEMO_SH = '#!/bin/bash\n# cwd: the repository; exit 0 iff the property holds\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def build(b):
    d = copy(b["id"])
    folder = f"{VERIF}/seeded/{b['id']}"
    tmp = f"{WORK}/{b['id']}.f"
    try:
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(f"{tmp}/demo.sh", "w").write(DEMO_SH)
        open(f"{tmp}/demo.py", "w").write(b["demo"].lstrip("\n"))
        rc0, o0 = demo(tmp, d)
        apply(b, d)
        diff = subprocess.run(["git", "-C", d, "diff", "--binary"], capture_output=True).stdout
        open(f"{tmp}/patch.diff", "wb").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(f"{tmp}/meta.json", "w"), indent=1)
        rc1, o1 = demo(tmp, d)
        res, base = tests(d)
        miss = sorted(flat(base) - flat(res))
        ok = rc0 == 0 and rc1 != 0 and not miss
        msg = f"{b['id']}: demo clean={rc0} patched={rc1} tests-lost={len(miss)} {'OK' if ok else 'REJECTED'}"
        if rc0:
            msg += "\n   clean: " + o0
        if rc1 == 0:
            msg += "\n   patched: " + o1
        if miss:
            msg += "\n   lost: " + " ".join(miss[:3])
        if ok:
            shutil.rmtree(folder, ignore_errors=True)
            shutil.copytree(tmp, folder)
        return msg
    except Exception as e:
        return f"{b['id']}: EXC {e!r}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


def try_(bid, props=None):
    folder = f"{VERIF}/seeded/{bid}"
    meta = json.load(open(f"{folder}/meta.json"))
    d = copy("t-" + bid)
    try:
        subprocess.run(["git", "-C", d, "apply", f"{folder}/patch.diff"], check=True)
        out = []
        for p in props or [meta["property"]]:
            r = subprocess.run([f"{VERIF}/check.sh", p], env=dict(os.environ, VERIF_DEV_REPO_SRC=f"{d}/src"),
                               capture_output=True, text=True)
            line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            out.append(f"{bid} {p}: rc={r.returncode} {'CAUGHT' if r.returncode == 1 and line else 'MISSED'}")
        return "\n".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    cmd, *ids = sys.argv[1:]
    if cmd == "build":
        B = bugs()
        if ids == ["all"]:
            ids = list(B)
        if ids == ["new"]:
            ids = [i for i in B if not os.path.exists(f"{VERIF}/seeded/{i}")]
        with cf.ThreadPoolExecutor(6) as ex:
            for m in ex.map(lambda i: build(B[i]), ids):
                print(m, flush=True)
    else:
        if ids == ["all"]:
            ids = sorted(os.listdir(f"{VERIF}/seeded"))
        for i in ids:
            print(try_(i), flush=True)
