"""C08: protocol of the optimization search, on all scripted environments up to the iteration bound."""
import contextlib
import io

import numpy as np

from .. import script as sc
from ..core import Violation
from ..script import need
from .c07 import check_result, compare, explore_cfg, run_lassos

ID = "C08"
ASSUMPTIONS = ["search space and oracle are scripted; all their answers up to the iteration bound are enumerated"]
GAMMAS = [5.0, 0.0, -2.5, 7]


def run_one(cfg, ch, rec):
    from ellalgo.cutting_plane import cutting_plane_optim
    from ellalgo.ell_config import CutStatus, Options

    log, tol, mx = [], cfg["tol"], cfg["max"]
    upd = [(CutStatus.Success, tol + 1.0), (CutStatus.Success, tol), (CutStatus.Success, tol - max(tol, 1.0) * 1e-3),
           (CutStatus.NoSoln, tol + 1.0), (CutStatus.NoEffect, tol + 1.0), (CutStatus.Unknown, tol + 1.0)]
    given, said = [], []
    gam = GAMMAS[:cfg["ng"]]

    def answers():
        given.append(upd[ch(len(upd))])
        return given[-1]

    space = sc.make_space(answers, log, cfg["inplace"], horizon=6 * mx + 20)

    class Oracle:
        def assess_optim(self, x, gamma):
            if len(log) > 6 * mx + 20:
                raise sc.Runaway()
            log.append(("query", np.array(x, copy=True), gamma))
            c = ch(len(gam) + 1)
            cut = sc.CUTS[(len(said) + c) % len(sc.CUTS)]
            g1 = None if c == 0 else gam[c - 1] - (len(said) if cfg.get("sliding") else 0)
            said.append((cut, g1))
            return (cut[0].copy(), cut[1]), g1

    o = sc.opts(mx, tol, cfg.get("verbose", False))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ret = cutting_plane_optim(Oracle(), space, float(cfg["gamma"]), o)
    except sc.Runaway:
        raise Violation("keeps querying beyond the iteration limit: " + sc.fmt(log[:40]))
    rec.step(len(log))
    rec.check()
    exp, succ, xb, g = [], 0, None, float(cfg["gamma"])
    num = mx
    for it in range(mx):
        exp.append(("query", sc.xval(succ), g))
        need(len(said) > it, lambda: "oracle queried only %d times: %s" % (len(said), sc.fmt(log)))
        cut, g1 = said[it]
        if g1 is not None:
            g, xb = g1, sc.xval(succ)
            exp.append(("update", "central", cut))
        else:
            exp.append(("update", "bias", cut))
        need(len(given) > it, lambda: "an answer was not followed by an update: " + sc.fmt(log))
        st, t = given[it]
        if st.name == "Success":
            succ += 1
        if st.name != "Success" or t < tol:
            num = it
            break
    compare(log, exp)
    # the space goes on being used: the returned point must not change
    ret = tuple(ret)
    space._x += 100.0
    check_result(ret, (xb, g, num))
    need((o.max_iters, o.tolerance) == (mx, tol), "options were modified")
    d = Options()
    need((d.max_iters, d.tolerance) == (2000, 1e-20), "default options changed to %s" % d)
    rec.outcome("%s@%d" % ("none" if xb is None else "best", num))
    rec.state((mx, [e[:2] if e[0] == "update" else e[0] for e in exp], num, repr(xb), g, [s[0].name for s in given]))


def default_options(k):
    from ellalgo.cutting_plane import cutting_plane_optim
    from ellalgo.ell_config import CutStatus

    log = []
    space = sc.make_space(lambda: (CutStatus.Success, 1e-20), log, False, horizon=5000)

    class Oracle:
        n = 0

        def assess_optim(self, x, gamma):
            self.n += 1
            need(gamma == (1.0 if self.n <= k else -float(k)), "oracle saw gamma=%r at query %d" % (gamma, self.n))
            return sc.CUTS[0], (-float(k) if self.n == k else None)

    orc = Oracle()
    ret = cutting_plane_optim(orc, space, 1.0)
    need(ret[2] == 2000 and orc.n == 2000, "returned %r after %d queries" % (ret, orc.n))
    need(ret[1] == -float(k) and np.array_equal(ret[0], sc.xval(k - 1)), "improvement at query %d returned %r" % (k, ret))


def bounds(tier):
    return {"max_iters": "0..%d" % (4 if tier == "quick" else 5), "tolerances": [1e-20, 0.5], "values": GAMMAS, "given value": [3.0, 0.0, "inf", "-inf"],
            "lassos": "all loops of length <= 2 (thorough 3) of non-final answers up to 150 iterations, with constant or ever better values, every way to stop after them",
            "update outcomes": "6 (status x width below/equal/above tolerance)", "spaces": "in-place and rebinding centre",
            "defaults": "2000 iterations with the default options"}


def shards(tier):
    sh = []
    big = tier == "thorough"
    for mx in range(0, 5 if not big else 6):
        for inplace in (False, True):
            for tol in (1e-20, 0.5):
                for gamma in (3.0, 0.0, "inf", "-inf"):
                    if mx > 3 and isinstance(gamma, str):
                        continue
                    ng = 4 if mx <= 3 else 2
                    for c in range(ng + 1):
                        if mx == 0 and c:
                            continue
                        sh.append({"cfg": {"max": mx, "inplace": inplace, "tol": tol, "gamma": gamma, "ng": ng,
                                           "verbose": c == 1 and mx < 3}, "first": [c] if mx else []})
    sh += [{"defaults": [k]} for k in (1, 2, 3, 100, 2000)]
    sh += [{"lasso": [sliding, inplace], "len": 2 if tier == "quick" else 3} for sliding in (False, True) for inplace in (False, True)]
    return sorted(sh, key=lambda s: -s.get("cfg", {"max": 9})["max"])


def run_shard(shard, rec):
    if "defaults" in shard:
        rec.run({"defaults": shard["defaults"]}, default_options, *shard["defaults"])
        rec.trace()
        return
    if "lasso" in shard:
        sliding, inplace = shard["lasso"]
        go = [(c, u) for c in range(3) for u in (0, 1)]
        stop = [(c, u) for c in (0, 1) for u in range(2, 6)]
        run_lassos(shard, rec, run_one, {"tol": 0.5, "inplace": inplace, "gamma": 3.0, "ng": 2, "sliding": sliding}, go, stop)
        return
    explore_cfg(shard, rec, run_one)


def replay(case, rec):
    if "defaults" in case:
        return default_options(*case["defaults"])
    if "lasso" in case:
        return run_one(case["cfg"], sc.Lasso(case["lasso"]["loop"], case["lasso"]["at"], case["lasso"]["end"]), rec)
    run_one(case["cfg"], sc.Chooser(case["prefix"]), rec)
