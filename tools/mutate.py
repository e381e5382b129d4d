"""Small syntactic mutants of the library, to look for behaviour the checks do not judge (development aid, used by no check).

    python tools/mutate.py gen OUT            write all mutants that survive the repository's tests to OUT/NNN (a src tree each)
    python tools/mutate.py run OUT [ID...]    run the checks of the mutated file on each survivor
"""
import ast
import concurrent.futures as cf
import copy
import os
import shutil
import subprocess
import sys

SRC = "/repo/src/ellalgo"
FILES = {
    "ell.py": "C05 C03 C01 C20", "ell_stable.py": "C04 C05 C03 C20", "ell_calc.py": "C06 C05 C03 C01", "ell_calc_core.py": "C06 C05 C01",
    "cutting_plane.py": "C07 C08 C09 C10 C11", "conjugate_gradient.py": "C18", "oracles/ldlt_mgr.py": "C13 C21", "oracles/lmi_oracle.py": "C14",
    "oracles/lmi0_oracle.py": "C14", "oracles/lmi_old_oracle.py": "C14", "oracles/lowpass_oracle.py": "C17", "oracles/profit_oracle.py": "C16 C15", "oracles/spectral_fact.py": "C19",
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def variants(tree):
    """(line, description, function that mutates the node in place)"""
    for i, node in enumerate(ast.walk(tree)):
        ln = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for new in CMP.get(type(node.ops[0]), []):
                yield i, ln, "%s -> %s" % (type(node.ops[0]).__name__, new.__name__), (lambda n, new=new: n.ops.__setitem__(0, new()))
        if isinstance(node, (ast.BinOp, ast.AugAssign)) and type(node.op) in BIN:
            new = BIN[type(node.op)]
            yield i, ln, "%s -> %s" % (type(node.op).__name__, new.__name__), (lambda n, new=new: setattr(n, "op", new()))
        if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            for v in {node.value + 1, node.value - 1} if isinstance(node.value, int) else {node.value * 1.5 if node.value else 1e-3, -node.value if node.value else -1e-3}:
                yield i, ln, "%r -> %r" % (node.value, v), (lambda n, v=v: setattr(n, "value", v))
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            yield i, ln, "flip bool", (lambda n: setattr(n, "value", not n.value))
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                yield i, ln, "condition -> %s" % v, (lambda n, v=v: setattr(n, "test", ast.Constant(v)))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and not isinstance(node.operand, ast.Constant):
            yield i, ln, "drop minus", (lambda n: setattr(n, "op", ast.UAdd()))
        if isinstance(node, ast.BoolOp):
            yield i, ln, "and <-> or", (lambda n: setattr(n, "op", ast.And() if isinstance(n.op, ast.Or) else ast.Or()))
        if isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
            for j, st in enumerate(node.body):
                if isinstance(st, (ast.AugAssign, ast.Assign)) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                    yield i, st.lineno, "delete statement", (lambda n, j=j: n.body.__setitem__(j, ast.Pass()))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "deepcopy", "array") and (node.args or node.func.attr == "copy"):
            yield i, ln, "no copy", (lambda n: (setattr(n, "args", [n.args[0] if n.args else n.func.value]), setattr(n, "keywords", []), setattr(n, "func", ast.Name("_same", ast.Load()))))


PYTEST = "/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=60 --hypothesis-profile=ci --benchmark-disable"


def survives(d):
    env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", HYPOTHESIS_STORAGE_DIRECTORY=d + "/hyp")
    for what in ("tests benches", "--doctest-modules src"):
        try:
            if subprocess.run(PYTEST.split() + what.split(), cwd=d, env=env, capture_output=True, timeout=200).returncode:
                return False
        except subprocess.TimeoutExpired:
            return False
    return True


def one(job):
    out, k, file, idx, nth, desc = job
    d = f"{out}/{k:03d}"
    os.makedirs(d)
    for f in ("tests", "benches", "src", "pyproject.toml", "setup.cfg", "setup.py", "pytest.ini", "tox.ini", "conftest.py"):
        if os.path.exists("/repo/" + f):
            subprocess.run(["cp", "-a", "/repo/" + f, d])
    if file:
        p = f"{d}/src/ellalgo/{file}"
        tree = ast.parse(open(p).read())
        todo = list(variants(tree))[nth]
        node = list(ast.walk(tree))[todo[0]]
        todo[3](node)
        body = ast.unparse(ast.fix_missing_locations(tree))
        if "_same(" in body:
            body += "\n\ndef _same(x):\n    return x\n"
        open(p, "w").write(body)
    ok = survives(d)
    for f in os.listdir(d):
        if f != "src":
            subprocess.run(["rm", "-rf", f"{d}/{f}"])
    if ok:
        open(d + "/what", "w").write(f"{file} {desc}\n")
    else:
        shutil.rmtree(d)
    return k, desc, ok


if __name__ == "__main__":
    out = sys.argv[2]
    if sys.argv[1] == "gen":
        jobs = [(out, 0, None, 0, 0, "identity")]
        for f in FILES:
            for nth, (i, ln, desc, _) in enumerate(variants(ast.parse(open(f"{SRC}/{f}").read()))):
                jobs.append((out, len(jobs), f, i, nth, "line %d: %s" % (ln, desc)))
        print(len(jobs), "mutants", flush=True)
        with cf.ProcessPoolExecutor(8) as ex:
            for k, desc, ok in ex.map(one, jobs):
                if ok:
                    print(k, jobs[k][2], desc, "SURVIVES", flush=True)
    else:
        verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        for k in sys.argv[3:] or sorted(os.listdir(out)):
            if not os.path.exists(f"{out}/{k}/what") or k == "000":
                continue
            what = open(f"{out}/{k}/what").read().strip()
            res = []
            for c in FILES[what.split()[0]].split():
                try:
                    rc = subprocess.run([verif + "/check.sh", c], env=dict(os.environ, VERIF_DEV_REPO_SRC=f"{out}/{k}/src"), capture_output=True, timeout=400).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                res.append(f"{c}={rc}")
                if rc == 1:
                    break
            print(k, what, "|", "CAUGHT" if "=1" in res[-1] else "MISSED", " ".join(res), flush=True)
