"""C09: retry protocol of the discrete search, on all scripted environments up to the iteration bound."""
import contextlib
import io

import numpy as np

from .. import script as sc
from ..core import Violation
from ..script import need
from .c07 import check_result, compare, explore_cfg, run_lassos

ID = "C09"
ASSUMPTIONS = ["search space and oracle are scripted; all their answers up to the iteration bound are enumerated",
               "the status Unknown is not among the scripted ones"]
GAMMAS = [5.0, 0.0, -2.5]


def run_one(cfg, ch, rec):
    from ellalgo.cutting_plane import cutting_plane_optim_q
    from ellalgo.ell_config import CutStatus, Options

    log, tol, mx = [], cfg["tol"], cfg["max"]
    full = cfg["full"]
    upd = [(CutStatus.Success, tol + 1.0), (CutStatus.NoEffect, tol + 1.0), (CutStatus.NoSoln, tol + 1.0),
           (CutStatus.Success, tol - max(tol, 1.0) * 1e-3), (CutStatus.NoEffect, tol - max(tol, 1.0) * 1e-3)]
    if full:
        upd += [(CutStatus.Success, tol), (CutStatus.NoEffect, tol)]
    gam = GAMMAS if full else [0.0]
    given, said = [], []

    def answers():
        given.append(upd[ch(len(upd))])
        return given[-1]

    space = sc.make_space(answers, log, cfg["inplace"], own_q=cfg["own_q"], horizon=6 * mx + 20)
    buf = np.zeros(2)

    class Oracle:
        def assess_optim_q(self, x, gamma, retry):
            if len(log) > 6 * mx + 20:
                raise sc.Runaway()
            log.append(("query", np.array(x, copy=True), gamma, retry))
            c = ch(2 * (len(gam) + 1))
            more, c = bool(c % 2), c // 2
            cut = sc.CUTS[(len(said) + c) % len(sc.CUTS)]
            g1 = None if c == 0 else gam[c - 1] - (len(said) if cfg.get("sliding") else 0)
            v = np.array([100.0 + len(said), 0.5])
            if cfg["xq"] == "buffer":
                buf[:] = v
                xq = buf
            elif cfg["xq"] == "centre":
                xq, v = x, np.array(x, copy=True)
            else:
                xq = v.copy()
            said.append((cut, v, g1, more))
            return (cut[0].copy(), cut[1]), xq, g1, more

    o = sc.opts(mx, tol, cfg.get("verbose", False))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ret = cutting_plane_optim_q(Oracle(), space, float(cfg["gamma"]), o)
    except sc.Runaway:
        raise Violation("keeps querying beyond the iteration limit: " + sc.fmt(log[:40]))
    rec.step(len(log))
    rec.check()
    exp, succ, xb, g, retry = [], 0, None, float(cfg["gamma"]), False
    num = mx
    for it in range(mx):
        exp.append(("query", sc.xval(succ), g, retry))
        need(len(said) > it, lambda: "oracle queried only %d times: %s" % (len(said), sc.fmt(log)))
        cut, xq, g1, more = said[it]
        if g1 is not None:
            g, xb = g1, xq
        exp.append(("update", "q" if cfg["own_q"] else "bias", cut))
        need(len(given) > it, lambda: "an answer was not followed by an update: " + sc.fmt(log))
        st, t = given[it]
        retry = False
        if st.name == "Success":
            succ += 1
        if st.name == "NoSoln" or (st.name == "NoEffect" and not more) or t < tol:
            num = it
            break
        retry = st.name == "NoEffect"
    log = [e if e[0] == "update" else (e[0], e[1], e[2], bool(e[3])) for e in log]
    compare(log, exp)
    ret = tuple(ret)
    space._x += 100.0
    buf[:] = -999.0
    check_result(ret, (xb, g, num))
    need((o.max_iters, o.tolerance) == (mx, tol), "options were modified")
    d = Options()
    need((d.max_iters, d.tolerance) == (2000, 1e-20), "default options changed to %s" % d)
    rec.outcome("%s@%d" % ("none" if xb is None else "best", num))
    rec.state((mx, [e[:2] if e[0] == "update" else (e[0], e[3]) for e in exp], num, repr(xb), g, [s[0].name for s in given]))


def default_options(k):
    from ellalgo.cutting_plane import cutting_plane_optim_q
    from ellalgo.ell_config import CutStatus

    log = []
    count = [0]

    def ans():
        count[0] += 1
        return (CutStatus.NoEffect if count[0] % 3 == 0 else CutStatus.Success), 1e-20

    space = sc.make_space(ans, log, False, horizon=5000)

    class Oracle:
        n = 0

        def assess_optim_q(self, x, gamma, retry):
            self.n += 1
            need(gamma == (1.0 if self.n <= k else -float(k)), "oracle saw gamma=%r at query %d" % (gamma, self.n))
            need(bool(retry) == (self.n > 1 and (self.n - 1) % 3 == 0), "oracle saw retry=%r at query %d" % (retry, self.n))
            return sc.CUTS[0], np.array([float(self.n), 1.0]), (-float(k) if self.n == k else None), True

    orc = Oracle()
    ret = cutting_plane_optim_q(orc, space, 1.0)
    need(ret[2] == 2000 and orc.n == 2000, "returned %r after %d queries" % (ret, orc.n))
    need(ret[1] == -float(k) and np.array_equal(ret[0], [float(k), 1.0]), "improvement at query %d returned %r" % (k, ret))


def bounds(tier):
    return {"max_iters": "0..3 with all 8 oracle answers x 7 update outcomes, 4..%d with 4 x 5" % (5 if tier == "quick" else 6),
            "lassos": "all loops of length <= 2 (thorough 3) of non-final answers up to 150 iterations, with constant or ever better values, every way to stop after them",
            "tolerances": [1e-20, 0.5], "values": GAMMAS, "given value": [3.0, "inf", "-inf"], "evaluation point": "fresh, reused buffer, the centre itself",
            "spaces": "in-place and rebinding, with and without their own quantized update"}


def shards(tier):
    sh = []
    big = tier == "thorough"
    for mx in range(0, 6 if not big else 7):
        full = mx <= (2 if not big else 3)
        for inplace in (False, True):
            for xq in ("fresh", "buffer", "centre"):
                for own_q in (True, False):
                    if mx >= 5 and (not own_q or xq == "fresh"):
                        continue
                    for tol in ((1e-20, 0.5) if full else (0.5,)):
                        for c in range(8 if full else 4):
                            if mx == 0 and c:
                                continue
                            sh.append({"cfg": {"max": mx, "inplace": inplace, "tol": tol, "gamma": 3.0, "full": full, "xq": xq,
                                               "own_q": own_q, "verbose": c == 1 and mx < 3}, "first": [c] if mx else []})
    for gamma in ("inf", "-inf"):
        sh += [{"cfg": {"max": 2, "inplace": False, "tol": 0.5, "gamma": gamma, "full": True, "xq": "fresh", "own_q": True}, "first": [c]}
               for c in range(8)]
    sh += [{"lasso": [sliding, xq, own_q], "len": 2 if tier == "quick" else 3} for sliding in (False, True)
           for xq in ("buffer", "centre") for own_q in (False, True)]
    sh += [{"defaults": [k]} for k in (1, 2, 3, 100, 2000)]
    return sorted(sh, key=lambda s: -s.get("cfg", {"max": 9})["max"])


def run_shard(shard, rec):
    if "defaults" in shard:
        rec.run({"defaults": shard["defaults"]}, default_options, *shard["defaults"])
        rec.trace()
        return
    if "lasso" in shard:
        sliding, xq, own_q = shard["lasso"]
        go = [(c, u) for c in range(4) for u in (0, 1) if not (u == 1 and c % 2 == 0)]
        stop = [(0, 1), (2, 1), (1, 2), (3, 2), (1, 3), (3, 3), (1, 4), (3, 4), (0, 4)]
        run_lassos(shard, rec, run_one, {"tol": 0.5, "inplace": xq == "centre", "gamma": 3.0, "full": False, "xq": xq, "own_q": own_q,
                                         "sliding": sliding}, go, stop)
        return
    explore_cfg(shard, rec, run_one)


def replay(case, rec):
    if "defaults" in case:
        return default_options(*case["defaults"])
    if "lasso" in case:
        return run_one(case["cfg"], sc.Lasso(case["lasso"]["loop"], case["lasso"]["at"], case["lasso"]["end"]), rec)
    run_one(case["cfg"], sc.Chooser(case["prefix"]), rec)
