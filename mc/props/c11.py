"""C11: parametric feasibility probes are isolated from each other."""
import copy
import itertools
import math

import numpy as np

from .. import ellspace as es
from .. import script as sc
from ..core import Violation
from ..script import need

ID = "C11"
ASSUMPTIONS = ["scripted part: all oracle answers and statuses of all sub-searches up to the bound; real part: fixed parametric problems, all probe sequences"]
ENV = {}


def _cls():
    from ellalgo.ell_typing import SearchSpace

    class Probe(SearchSpace):
        """In-place space with array-valued state; outcomes come from ENV."""

        def __init__(self):
            self._x = np.array([10.0, -3.0])
            self._shape = np.array([[4.0, 0.0], [0.0, 4.0]])
            self._t = [1e6]

        def _upd(self, kind, cut):
            ENV["log"].append(("update", kind))
            if len(ENV["log"]) > ENV["horizon"]:
                raise sc.Runaway()
            st, t = ENV["answers"]()
            self._t[0] = t
            if st.name == "Success":
                self._x += sc.STEP
                self._shape *= 0.5
            return st

        def update_bias_cut(self, cut):
            return self._upd("bias", cut)

        def update_central_cut(self, cut):
            return self._upd("central", cut)

        def xc(self):
            return self._x

        def set_xc(self, x):
            self._x = x

        def tsq(self):
            return self._t[0]

    return Probe


def scripted(cfg, ch, rec):
    from ellalgo.cutting_plane import BSearchAdaptor
    from ellalgo.ell_config import CutStatus

    if "cls" not in ENV:
        ENV["cls"] = _cls()
    log = []
    given = []
    upd = [(CutStatus.Success, 1.0), (CutStatus.NoSoln, 1.0), (CutStatus.Success, 0.1), (CutStatus.NoEffect, 1.0)]

    def answers():
        given.append(upd[ch(len(upd))])
        return given[-1]

    ENV.update(log=log, answers=answers, horizon=200)

    class Oracle:
        def update(self, gamma):
            log.append(("gamma", gamma))

        def assess_feas(self, x):
            if len(log) > 200:
                raise sc.Runaway()
            c = ch(2)
            log.append(("query", np.array(x, copy=True), c == 1))
            return None if c == 1 else (np.array([1.0, 1.0]), 0.5)

    space = ENV["cls"]()
    opt = sc.opts(cfg["max"], 0.5)
    ad = BSearchAdaptor(Oracle(), space, opt)
    base = np.array([10.0, -3.0])
    shape0 = space._shape.copy()
    for gamma in cfg["gammas"]:
        start = len(log)
        gi = len(given)
        try:
            res = ad.assess_bs(gamma)
        except sc.Runaway:
            raise Violation("probe does not stop at max_iters=%d" % cfg["max"])
        ev = log[start:]
        rec.step(len(ev))
        rec.check()
        # reference
        want, x, shp_t = False, base.copy(), None
        exp = []
        k = 0
        for it in range(cfg["max"]):
            qs = [e for e in ev if e[0] == "query"]
            need(len(qs) > it, lambda: "probe of %r stopped early: %s" % (gamma, ev))
            exp.append(("query", x.copy()))
            if qs[it][2]:
                want = True
                break
            exp.append(("update", "bias"))
            need(len(given) > gi + k, lambda: "rejected centre without update: %s" % (ev,))
            st, t = given[gi + k]
            k += 1
            if st.name == "Success":
                x += sc.STEP
            if st.name != "Success" or t < 0.5:
                break
        real = [e for e in ev if e[0] != "gamma"]
        need(len(real) == len(exp) and all(a[0] == b[0] and (a[0] == "update" and a[1] == b[1] or a[0] == "query" and np.array_equal(a[1], b[1]))
                                          for a, b in zip(real, exp)), lambda: "probe of %r: events %s, expected %s" % (gamma, real, exp))
        gs = [e[1] for e in ev if e[0] == "gamma"]
        need(all(g == gamma for g in gs) and len(gs) >= 1, lambda: "oracle was told %s when probing %r" % (gs, gamma))
        if real:
            need(ev[0][0] == "gamma", "oracle queried before it was told the value")
        need(bool(res) == want and isinstance(res, (bool, np.bool_)), lambda: "probe of %r answered %r, sub-search %s" % (gamma, res, "succeeded" if want else "failed"))
        if want:
            base = x.copy()
        need(np.array_equal(ad.x_best, base), lambda: "best point is %s, expected %s" % (ad.x_best, base))
        need(np.array_equal(space.xc(), base), lambda: "centre of the space is %s, expected %s" % (space.xc(), base))
        need(np.array_equal(space._shape, shape0) and space._t[0] == 1e6, "a probe altered the ellipsoid of the space")
        rec.outcome("%s" % want)
    need((opt.max_iters, opt.tolerance) == (cfg["max"], 0.5), "options were modified")
    rec.state((sorted(cfg.items()), ch.taken))


# ------------------------------------------------------------------ real spaces, parametric problem
class Parametric:
    """x feasible at level gamma iff x is in the box |x_i - c_i| <= 1 and a.x <= gamma (minimal gamma is known)."""

    def __init__(self, n, parallel):
        self.n, self.parallel = n, parallel
        self.c = np.array([0.7 * (-1) ** i for i in range(n)])
        self.a = np.array([1.0 + 0.5 * i for i in range(n)])
        self.gamma = None
        self.asked = []
        self.opt = float(self.a @ self.c - np.sum(np.abs(self.a)))

    def update(self, gamma):
        self.gamma = gamma

    def assess_feas(self, x):
        x = np.asarray(x, dtype=float)
        self.asked.append((self.gamma, x.copy()))
        f = float(self.a @ x) - self.gamma
        if f > 0:
            return self.a.copy(), f
        for i in range(self.n):
            d = x[i] - self.c[i]
            e = np.zeros(self.n)
            if d > 1:
                e[i] = 1.0
                return e, ([d - 1, d + 1] if self.parallel else d - 1)
            if d < -1:
                e[i] = -1.0
                return e, ([-d - 1, -d + 1] if self.parallel else -d - 1)
        return None

    def feasible(self, x, gamma):
        x = np.asarray(x, dtype=float)
        return float(self.a @ x) <= gamma + 1e-12 and bool(np.all(np.abs(x - self.c) <= 1 + 1e-12))


def real(cfg, rec):
    from ellalgo.cutting_plane import BSearchAdaptor, cutting_plane_feas

    n = cfg["n"]
    space = es.make(cfg)
    orc = Parametric(n, cfg["parallel"])
    opt = sc.opts(cfg["max"], 1e-12)
    ad = BSearchAdaptor(orc, space, opt)
    P0 = es.observe(space, n).P
    for gamma in cfg["gammas"]:
        before = es.observe(space, n)
        ref_space = copy.deepcopy(space)
        ref_orc = Parametric(n, cfg["parallel"])
        ref_orc.update(gamma)
        rx, _ = cutting_plane_feas(ref_orc, ref_space, opt)
        orc.asked = []
        res = ad.assess_bs(gamma)
        rec.step(len(orc.asked))
        rec.check()
        need(all(g == gamma for g, _ in orc.asked), "oracle queried with another value than %r" % gamma)
        need(bool(res) == (rx is not None), "probe of %r answered %r, a search from the same state %s" % (gamma, res, "succeeds" if rx is not None else "fails"))
        after = es.observe(space, n)
        need(np.array_equal(after.P, before.P) and np.array_equal(after.P, P0), "probe of %r altered the ellipsoid" % gamma)
        if res:
            need(np.array_equal(np.asarray(ad.x_best), np.asarray(rx)), "best point %s, the search found %s" % (ad.x_best, rx))
            need(orc.feasible(ad.x_best, gamma), "best point %s is not feasible at %r" % (ad.x_best, gamma))
        else:
            need(np.array_equal(after.xc, before.xc), "failed probe of %r moved the centre from %s to %s" % (gamma, before.xc, after.xc))
        rec.outcome("real %s" % bool(res))
    rec.state((sorted((k, str(v)) for k, v in cfg.items()),))


def search(cfg, rec):
    """bsearch over the adaptor."""
    from ellalgo.cutting_plane import BSearchAdaptor, bsearch

    n = cfg["n"]
    space = es.make(cfg)
    orc = Parametric(n, cfg["parallel"])
    ad = BSearchAdaptor(orc, space, sc.opts(cfg["max"], 1e-14))
    lo, up = orc.opt + cfg["lo"], orc.opt + cfg["up"]
    x0 = np.array(space.xc(), dtype=float)
    log = []
    orig = ad.assess_bs

    class Spy:
        def assess_bs(self, g):
            r = orig(g)
            log.append((g, r, np.array(ad.x_best, dtype=float)))
            return r

    val, num = bsearch(Spy(), (lo, up), sc.opts(40, cfg["tol"]))
    rec.step(len(log))
    rec.check()
    ok = [(g, x) for g, r, x in log if r]
    if ok:
        need(val == min(g for g, _ in ok), "returned %r, smallest accepted %r" % (val, min(g for g, _ in ok)))
        need(orc.feasible(ad.x_best, val), "best point %s does not belong to the returned value %r" % (ad.x_best, val))
        need(np.array_equal(ad.x_best, ok[-1][1]), "best point changed after the last success")
    else:
        need(val == up and np.array_equal(ad.x_best, x0), "nothing accepted, but result %r, best %s" % (val, ad.x_best))
    if cfg["complete"]:
        # values a whole unit above the optimum have a fat feasible set: the search must get below that
        need(val <= orc.opt + 1.0 + 2 * cfg["tol"], "returned %r, but every value above %r is feasible" % (val, orc.opt + 1))
    rec.outcome("search %d" % len(ok))
    rec.state((sorted((k, str(v)) for k, v in cfg.items()),))


def bounds(tier):
    q = tier == "quick"
    return {"scripted": "all sequences of %d probes from 3 values, max_iters 0..%d, all answers and statuses" % (2 if q else 3, 3 if q else 3),
            "real": "all sequences of %d probes from 5 levels, Ell and EllStable, n 2,3,5, single and parallel cuts" % (3 if q else 4)}


def shards(tier):
    sh = []
    big = tier == "thorough"
    for mx in range(0, 4):
        for k in (1, 2, 3):
            if k == 3 and mx > (2 if not big else 3):
                continue
            for gs in itertools.product([1.0, 0, -2.5], repeat=k):
                if k == 3 and not big and gs[0] != 1.0:
                    continue
                if k == 2 and mx == 3 and gs[0] != 1.0:
                    continue
                sh.append({"k": "s", "cfg": {"max": mx, "gammas": list(gs)}})
    for n in (2, 3, 5):
        for cls in ("Ell", "EllStable"):
            for nd in (False, True):
                for par in (False, True):
                    sh.append({"k": "r", "cfg": {"cls": cls, "n": n, "init": ["scalar", 25.0], "nodefer": nd, "parallel": par},
                               "len": 3 if not big else 4})
                    sh.append({"k": "b", "cfg": {"cls": cls, "n": n, "init": ["scalar", 25.0], "nodefer": nd, "parallel": par}})
    return sh


def run_shard(shard, rec):
    if shard["k"] == "s":
        def run(ch):
            rec.run({"cfg": shard["cfg"], "prefix": list(ch.prefix)}, scripted, shard["cfg"], ch, rec)
        for taken in sc.explore(run):
            rec.trace()
            rec.sample({"cfg": shard["cfg"], "choices": taken})
    elif shard["k"] == "r":
        n = shard["cfg"]["n"]
        opt = Parametric(n, False).opt
        for k in range(1, shard["len"] + 1):
            for lv in itertools.product([-1.0, 0.3, 1.0, 2.0, 6.0], repeat=k):
                for mx in (200, 4):
                    cfg = dict(shard["cfg"], gammas=[opt + v for v in lv], max=mx)
                    rec.run({"real": cfg}, real, cfg, rec)
                    rec.trace()
    else:
        for lo in (-2.0, -0.5, 0.0):
            for up in (2.0, 6.0, 10.0):
                for tol in (1e-3, 0.1):
                    for mx in (300, 5):
                        cfg = dict(shard["cfg"], lo=lo, up=up, tol=tol, max=mx, complete=mx == 300)
                        rec.run({"search": cfg}, search, cfg, rec)
                        rec.trace()


def replay(case, rec):
    if "real" in case:
        real(case["real"], rec)
    elif "search" in case:
        search(case["search"], rec)
    else:
        scripted(case["cfg"], sc.Chooser(case["prefix"]), rec)
