"""Exploration engine shared by all checks.

A property module (mc.props.cXX) provides

    ID, TECHNIQUE, ASSUMPTIONS
    def shards(tier) -> list of JSON-able shard descriptions   (a partition of the bounded space)
    def run_shard(shard, rec)                                   explores the shard exhaustively
    def replay(case, rec)                                       re-executes one recorded case

`rec` (class Rec) collects what was covered and what went wrong.  A violation is always tied to a
JSON-able *case*, which replay() can re-execute on its own.  Nothing here is randomised.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_DEV_REPO_SRC", "/repo/src")  # override: development only
MAX_VIOLATIONS_PER_SHARD = 3


class Violation(Exception):
    """Raised by an oracle: the property is broken on the current case."""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.case = case


class CaseTimeout(BaseException):
    pass


class StopShard(BaseException):
    pass


def canon(x):
    """Stable 8-byte digest of a canonical (JSON-able / repr-able) state description."""
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Rec:
    def __init__(self, prop, tier, case_limit=None):
        self.prop = prop
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.known = collections.Counter()
        self.known_detail = {}
        self.notes = {}
        self.case = None
        # CPU seconds, so that a loaded machine raises no alarm
        self.case_limit = case_limit or float(os.environ.get("VERIF_CASE_LIMIT", "100" if tier == "quick" else "1200"))

    # -- coverage -----------------------------------------------------------------------------
    def state(self, s):
        self.states.add(canon(s))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def check(self, n=1):
        self.evaluations += n

    def outcome(self, name):
        self.outcomes[str(name)] += 1

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    # -- findings -----------------------------------------------------------------------------
    def violation(self, case, msg):
        self.violations.append({"case": case, "msg": str(msg)})
        if len(self.violations) >= MAX_VIOLATIONS_PER_SHARD:
            raise StopShard()

    def known_finding(self, key, detail):
        self.known[key] += 1
        self.known_detail.setdefault(key, detail)

    def run(self, case, fn, *args):
        """Run fn as one case: any exception it lets escape is a violation of this case."""
        self.case = case
        signal.setitimer(signal.ITIMER_PROF, self.case_limit)
        try:
            return fn(*args)
        except StopShard:
            raise
        except Violation as v:
            self.violation(v.case if v.case is not None else case, str(v))
        except CaseTimeout:
            self.violation(case, "did not finish within %.0f s" % self.case_limit)
            raise StopShard()
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:  # noqa - SystemExit etc. raised by the code under test
            if isinstance(e, (GeneratorExit,)):
                raise
            tb = traceback.format_exc(limit=-6)
            self.violation(case, "unexpected %s: %s\n%s" % (type(e).__name__, e, tb))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)


def _alarm(signum, frame):
    raise CaseTimeout()


def load(prop):
    return importlib.import_module("mc.props." + prop.lower())


def setup_imports():
    """Make `ellalgo` come from /repo's current working tree, and prove it."""
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    import ellalgo

    got = os.path.realpath(ellalgo.__file__)
    if not got.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError("ellalgo imported from %s, not from %s" % (got, REPO_SRC))


def _work(job):
    prop, tier, shard = job
    signal.signal(signal.SIGPROF, _alarm)
    mod = load(prop)
    rec = Rec(prop, tier, getattr(mod, "CASE_LIMIT", None))
    t0 = time.time()
    try:
        rec.run({"shard": shard}, mod.run_shard, shard, rec)
    except StopShard:
        pass
    return {
        "states": rec.states, "transitions": rec.transitions, "traces": rec.traces,
        "evaluations": rec.evaluations, "outcomes": rec.outcomes, "samples": rec.samples,
        "violations": rec.violations, "known": rec.known, "known_detail": rec.known_detail,
        "notes": rec.notes, "secs": time.time() - t0, "shard": shard,
    }


def _serve(conn):
    try:
        while True:
            job = conn.recv()
            if job is None:
                break
            conn.send(_work(job))
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        pass
    finally:
        os._exit(0)


def parallel(jobs, nproc):
    """Results of all jobs in order of completion. Workers share nothing but one pipe each with the parent (a
    multiprocessing.Pool can deadlock when it is terminated early), and are killed when the caller stops early."""
    ctx = multiprocessing.get_context("fork")
    workers, todo, died = {}, list(enumerate(jobs))[::-1], collections.Counter()

    def spawn():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(there,), daemon=True)
        p.start()
        there.close()
        workers[here] = [p, None]
        feed(here)

    def feed(conn):
        if todo:
            workers[conn][1] = todo.pop()
            conn.send(workers[conn][1][1])
        else:
            workers[conn][1] = None

    try:
        for _ in range(nproc):
            spawn()
        while any(w[1] is not None for w in workers.values()):
            for conn in multiprocessing.connection.wait([c for c, w in workers.items() if w[1] is not None]):
                try:
                    r = conn.recv()
                except (EOFError, ConnectionResetError):
                    k, job = workers.pop(conn)[1]
                    died[k] += 1
                    if died[k] > 2:
                        raise RuntimeError("a worker process died three times on shard %s" % (job[2],))
                    todo.append((k, job))
                    spawn()
                    continue
                feed(conn)
                yield r
    finally:
        for conn, (p, _) in workers.items():
            p.kill()
        for conn, (p, _) in workers.items():
            p.join()
            conn.close()


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def jsonable(o):
    try:
        import numpy as np

        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    return repr(o)


def main(prop, tier=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    setup_imports()
    mod = load(prop)
    shards = mod.shards(tier)
    jobs = [(prop, tier, s) for s in shards]
    nproc = int(os.environ.get("VERIF_JOBS", "0")) or max(1, min(8, os.cpu_count() or 1))
    tot = {"states": set(), "transitions": 0, "traces": 0, "evaluations": 0,
           "outcomes": collections.Counter(), "samples": [], "violations": [],
           "known": collections.Counter(), "known_detail": {}, "notes": {}}
    done = 0
    slow = []

    def merge(r):
        nonlocal done
        done += 1
        tot["states"] |= r["states"]
        for k in ("transitions", "traces", "evaluations"):
            tot[k] += r[k]
        tot["outcomes"] += r["outcomes"]
        tot["known"] += r["known"]
        for k, v in r["known_detail"].items():
            tot["known_detail"].setdefault(k, v)
        for k, v in r["notes"].items():
            tot["notes"].setdefault(k, v)
        if len(tot["samples"]) < 4:
            tot["samples"] += r["samples"][:2]
        tot["violations"] += r["violations"]
        slow.append((r["secs"], r["shard"]))

    if nproc == 1 or len(jobs) == 1:
        for j in jobs:
            merge(_work(j))
            if tot["violations"]:
                break
    else:
        for r in parallel(jobs, min(nproc, len(jobs))):
            merge(r)
            if tot["violations"]:
                break
    complete = done == len(jobs)

    # known findings: only those listed (by key) in the committed file are silenced
    listed = {f["key"]: f for f in known_findings() if f["property"] == prop and f["kind"] == "known"}
    for key in sorted(tot["known"]):
        if key in listed:
            print("KNOWN-FINDING: property=%s %s (%d occurrences in the explored space; e.g. %s)" % (
                prop, listed[key]["what"], tot["known"][key],
                json.dumps(tot["known_detail"][key], default=jsonable)[:300]))
        else:
            tot["violations"].append({"case": tot["known_detail"][key].get("case"),
                                      "msg": "finding %s is not listed: %s" % (key, tot["known_detail"][key])})

    viol = tot["violations"]
    vio_dir = os.path.join(VERIF, "evidence", "replay")
    lines = []
    if viol:
        os.makedirs(vio_dir, exist_ok=True)
        viol.sort(key=lambda v: len(json.dumps(v["case"], default=jsonable)))
        for i, v in enumerate(viol[:3]):
            path = os.path.join(vio_dir, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "case": v["case"], "msg": v["msg"],
                           "how": "cd /verif && ./check.sh --replay " + path}, f, indent=1, default=jsonable)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            print("--- %s: %s\n    case: %s" % (prop, v["msg"][:1500], json.dumps(v["case"], default=jsonable)[:2000]))
    cov = {
        "states": len(tot["states"]), "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"], "evaluations": tot["evaluations"],
        "samples": tot["samples"], "outcomes": dict(sorted(tot["outcomes"].items())),
        "exhaustive": bool(complete and not viol), "shards_done": done, "shards_total": len(jobs),
        "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else {},
        "how_traces_are_validated": "every explored execution runs the real code of /repo/src; the counts are of those executions",
    }
    cov.update(tot["notes"])
    if tot["known"]:
        cov["known_findings"] = dict(tot["known"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 3),
          "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=jsonable)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s tier=%s states=%d transitions=%d traces=%d evaluations=%d shards=%d/%d outcomes=%d wall=%.1fs" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        cov["evaluations"], done, len(jobs), len(cov["outcomes"]), ev["wall_s"]))
    if os.environ.get("VERIF_DEBUG"):
        print("outcomes:", cov["outcomes"])
        for s, sh in sorted(slow, key=lambda x: -x[0])[:5]:
            print("  slow %.1fs %s" % (s, json.dumps(sh, default=jsonable)[:200]))
    for line in lines:
        print(line)
    sys.stdout.flush()
    return 1 if viol else 0


def replay_file(path):
    setup_imports()
    signal.signal(signal.SIGPROF, _alarm)
    d = json.load(open(path))
    mod = load(d["property"])
    rec = Rec(d["property"], d.get("tier", "quick"), getattr(mod, "CASE_LIMIT", None))
    case = d["case"]
    try:
        if isinstance(case, dict) and set(case) == {"shard"}:
            rec.run(case, mod.run_shard, case["shard"], rec)
        else:
            rec.run(case, mod.replay, case, rec)
    except StopShard:
        pass
    for v in rec.violations:
        print("REPRODUCED:", v["msg"])
    if not rec.violations:
        print("not reproduced on the current tree")
    return 1 if rec.violations else 0
