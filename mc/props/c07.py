"""C07: protocol of the feasibility search, on all scripted environments up to the iteration bound."""
import contextlib
import io

import numpy as np

from .. import script as sc
from ..core import Violation
from ..script import need

ID = "C07"
ASSUMPTIONS = ["search space and oracle are scripted; all their answers up to the iteration bound are enumerated"]


def run_one(cfg, ch, rec):
    from ellalgo.cutting_plane import cutting_plane_feas
    from ellalgo.ell_config import CutStatus, Options

    log, tol = [], cfg["tol"]
    model = {"q": 0, "succ": 0, "done": None}
    upd = [(CutStatus.Success, tol * 2 + 1.0), (CutStatus.Success, tol), (CutStatus.Success, tol - max(tol, 1.0) * 1e-3),
           (CutStatus.NoSoln, tol + 1.0), (CutStatus.NoEffect, tol + 1.0), (CutStatus.Unknown, tol + 1.0),
           (CutStatus.NoEffect, tol - 1.0)]
    given = []

    def answers():
        return upd[ch(len(upd))]

    def wrapped():
        st, t = answers()
        given.append((st, t))
        return st, t

    space = sc.make_space(wrapped, log, cfg["inplace"], horizon=6 * (cfg["max"] or 0) + 20)
    cuts = []

    class Oracle:
        def assess_feas(self, x):
            if len(log) > 6 * cfg["max"] + 20:
                raise sc.Runaway()
            log.append(("query", np.array(x, copy=True)))
            c = ch(len(sc.CUTS) + 1)
            cut = None if c == len(sc.CUTS) else (sc.CUTS[c][0].copy(), sc.CUTS[c][1])
            cuts.append(cut if cut is None else sc.CUTS[c])
            return cut

        def update(self, gamma):
            log.append(("update-oracle", gamma))

    o = sc.opts(cfg["max"], tol, cfg.get("verbose", False))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ret = cutting_plane_feas(Oracle(), space, o)
    except sc.Runaway:
        raise Violation("keeps querying beyond the iteration limit: " + sc.fmt(log[:40]))
    rec.step(len(log))
    rec.check()
    # reference state machine replays the same answers
    exp, i = [], 0
    result = (None, cfg["max"])
    succ = 0
    nu = 0
    for it in range(cfg["max"]):
        exp.append(("query", sc.xval(succ)))
        need(len(cuts) > it, lambda: "oracle queried %d times, expected more: %s" % (len(cuts), sc.fmt(log)))
        if cuts[it] is None:
            result = (sc.xval(succ), it)
            break
        exp.append(("update", "bias", cuts[it]))
        need(len(given) > nu, lambda: "a rejected centre was not followed by an update: " + sc.fmt(log))
        st, t = given[nu]
        nu += 1
        if st.name == "Success":
            succ += 1
        if st.name != "Success" or t < tol:
            result = (None, it)
            break
    compare(log, exp)
    check_result(ret, result)
    need((o.max_iters, o.tolerance) == (cfg["max"], tol), "options were modified")
    d = Options()
    need((d.max_iters, d.tolerance) == (2000, 1e-20), "default options changed to %s" % d)
    rec.outcome("%s@%d" % ("point" if result[0] is not None else "none", result[1]))
    rec.state((sorted(cfg.items()), ch.taken))


def compare(log, exp):
    need(len(log) == len(exp), lambda: "events: %s\n   expected: %s" % (sc.fmt(log), sc.fmt(exp)))
    for a, b in zip(log, exp):
        if a[0] != b[0]:
            raise Violation("events: %s\n   expected: %s" % (sc.fmt(log), sc.fmt(exp)))
        if a[0] == "update":
            need(a[1] == b[1], lambda: "update kind %s, expected %s: %s" % (a[1], b[1], sc.fmt(log)))
            need(sc.same_cut(a[2], b[2]), "update received another cut than the oracle returned: %s, expected %s" % (a[2], b[2]))
        else:
            need(len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a[1:], b[1:])),
                 lambda: "events: %s\n   expected: %s" % (sc.fmt(log), sc.fmt(exp)))


def check_result(ret, result):
    need(isinstance(ret, tuple) and len(ret) == len(result), "returned %r, expected %r" % (ret, result))
    for r, e in zip(ret, result):
        if e is None:
            need(r is None, "returned %r, expected %r" % (ret, result))
        else:
            need(r is not None and np.array_equal(r, e), "returned %r, expected %r" % (ret, result))


def default_options(kind, k):
    """Runs with the default options object: 2000 iterations, tolerance 1e-20."""
    from ellalgo.cutting_plane import cutting_plane_feas
    from ellalgo.ell_config import CutStatus

    log = []
    count = [0]

    def ans():
        count[0] += 1
        return CutStatus.Success, (1e-20 if kind != "below" or count[0] < k else 0.99e-20)

    space = sc.make_space(ans, log, False, horizon=5000)

    class Oracle:
        n = 0

        def assess_feas(self, x):
            self.n += 1
            return None if kind == "accept" and self.n > k else sc.CUTS[0]

    orc = Oracle()
    ret = cutting_plane_feas(orc, space)
    if kind == "accept":
        need(ret[1] == k and np.array_equal(ret[0], sc.xval(k)), "accepting query %d returned %r" % (k + 1, ret))
    elif kind == "below":
        need(ret == (None, k - 1), "width below tolerance at update %d returned %r" % (k, ret))
    else:
        need(ret == (None, 2000) and orc.n == 2000, "no decision: returned %r after %d queries" % (ret, orc.n))


def bounds(tier):
    return {"max_iters": "0..%d" % (4 if tier == "quick" else 6), "tolerances": [1e-20, 0.5, 0.0, 4.0],
            "oracle answers": "accept, 3 cuts (single, parallel, central)", "update outcomes": "7 (status x width below/equal/above tolerance)",
            "lassos": "all loops of length <= 2 (thorough 3) of non-final answers up to 150 iterations, every way to stop after them",
            "spaces": "in-place and rebinding centre", "defaults": "2000 iterations with the default options"}


def shards(tier):
    sh = []
    for mx in range(0, 5 if tier == "quick" else 7):
        for inplace in (False, True):
            for tol in (1e-20, 0.5, 0.0, 4.0):
                for c in range(4):
                    if mx == 0 and c:
                        continue
                    sh.append({"cfg": {"max": mx, "inplace": inplace, "tol": tol, "verbose": c == 1 and mx < 3}, "first": [c] if mx else []})
    sh += [{"defaults": [k, n]} for k in ("accept", "below", "never") for n in (1, 2, 57, 1999)]
    sh += [{"lasso": [tol, inplace], "len": 2 if tier == "quick" else 3} for tol in (1e-20, 4.0) for inplace in (False, True)]
    return sorted(sh, key=lambda s: -s.get("cfg", {"max": 9})["max"])


def run_shard(shard, rec):
    if "defaults" in shard:
        rec.run({"defaults": shard["defaults"]}, default_options, *shard["defaults"])
        rec.trace()
        return
    if "lasso" in shard:
        tol, inplace = shard["lasso"]
        go = [(c, u) for c in range(3) for u in (0, 1)]
        stop = [(3, 0)] + [(c, u) for c in (0, 1) for u in range(2, 7)]
        run_lassos(shard, rec, run_one, {"tol": tol, "inplace": inplace}, go, stop)
        return
    explore_cfg(shard, rec, run_one)


LIMITS = (6, 12, 40, 150)


def run_lassos(shard, rec, run_one, base, go, stop):
    for la in sc.lassos(go, stop, shard["len"], LIMITS):
        cfg = dict(base, max=la["max"])
        rec.run({"cfg": cfg, "lasso": la}, run_one, cfg, sc.Lasso(la["loop"], la["at"], la["end"]), rec)
        rec.trace()


def explore_cfg(shard, rec, run_one):
    cur = [None]

    def run(ch):
        cur[0] = ch
        rec.run({"cfg": shard["cfg"], "choices": None, "prefix": list(ch.prefix)}, run_one, shard["cfg"], ch, rec)

    for taken in sc.explore(run, shard["first"]):
        rec.trace()
        rec.sample({"cfg": shard["cfg"], "choices": taken})


def replay(case, rec):
    if "defaults" in case:
        return default_options(*case["defaults"])
    if "lasso" in case:
        return run_one(case["cfg"], sc.Lasso(case["lasso"]["loop"], case["lasso"]["at"], case["lasso"]["end"]), rec)
    run_one(case["cfg"], sc.Chooser(case["prefix"]), rec)
