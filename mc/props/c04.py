"""C04: Ell and EllStable, each with deferred or immediate scaling, move in lockstep."""
import math
import pickle

import numpy as np

from .. import ellspace as es
from ..core import Violation
from .c01 import bounds  # noqa: F401

ID = "C04"
ASSUMPTIONS = ["agreement up to 1e-7 relative (1e-4 once the ellipsoid is flat); histories stop at condition number 1e9",
               "at a boundary between two outcomes the variants may differ by rounding"]
OPEN_LOOP = 10
VARIANTS = [("Ell", False), ("Ell", True), ("EllStable", False), ("EllStable", True)]


class Lock(es.Walker):
    """States are tuples of four spaces; `pre` is the observation of the first."""

    def variants(self):
        return [dict(self.cfg, cls=c, nodefer=nd) for c, nd in VARIANTS]

    def step(self, spaces, pre, op, path):
        rec = self.rec
        n = self.n
        es.DEPTH[0] = len(path)
        tsq = es.probe(spaces[0], op["g"])
        tau = math.sqrt(max(tsq, 0.0))
        if es.is_flat(pre.P, op["g"]):
            rec.outcome("flat direction")
            return None
        beta = es.betas(op, tau)
        out = []
        for sp in spaces:
            if len(path) > OPEN_LOOP:
                # a difference in the last digit is amplified by every further deep cut; beyond a few cuts each
                # variant therefore gets the same multiple of its own half-width (which is compared below)
                beta = es.betas(op, math.sqrt(max(es.probe(sp, op["g"]), 0.0)))
            sp = pickle.loads(pickle.dumps(sp, protocol=5))
            st, exc = es.apply(sp, op, beta)
            out.append((st if st else "error", sp, es.observe(sp, n)))
        rec.step(len(out))
        rec.check(len(out) - 1)
        rec.outcome("%s/%s" % (op["k"], out[0][0]))
        boundary = len(es.expected_status(op, n, self.par)) > 1
        st0, sp0, o0 = out[0]
        w = np.linalg.eigvalsh(pre.P)
        cond = w[-1] / max(w[0], 1e-300)
        flat = cond > 1e10
        base = 1e-4 if flat else 1e-7 + es.slack()
        sc = max(float(w[-1]), 1e-300)
        for (cls, nd), (st, sp, o) in list(zip(VARIANTS, out))[1:]:
            name = cls + ("/immediate scaling" if nd else "/deferred scaling")
            if st != st0:
                if boundary:
                    return None
                raise Violation("%s reports %s, Ell reports %s for the same cut" % (name, st, st0))
            if abs(sp.tsq() - sp0.tsq()) > base * tau * tau + 1e-11 * sc * float(np.dot(op["g"], op["g"])):
                raise Violation("%s has tsq %.12g, Ell %.12g" % (name, sp.tsq(), sp0.tsq()))
            if not (np.all(np.isfinite(o.P)) and np.all(np.isfinite(o.xc))):
                raise Violation("%s is not finite" % name)
            d = np.max(np.abs(o.P - o0.P))
            if d > base * sc:
                raise Violation("ellipsoids differ: %s %s, Ell %s" % (name, o.P.tolist(), o0.P.tolist()))
            d = np.max(np.abs(o.xc - o0.xc))
            if d > base * (math.sqrt(sc) + np.max(np.abs(o0.xc))):
                raise Violation("centres differ: %s %s, Ell %s" % (name, o.xc.tolist(), o0.xc.tolist()))
        if st0 != "Success":
            return None
        return [x[1] for x in out], o0


def start(cfg):
    spaces = [es.make(dict(cfg, cls=c, nodefer=nd)) for c, nd in VARIANTS]
    return spaces, es.observe(spaces[0], cfg["n"])


def shards(tier):
    return [dict(s, deep=False) if s["kind"] == "V" else s for s in es.history_shards(tier, "Ell")]


def run_shard(shard, rec):
    es.explore_shard(shard, rec, None, Lock, start)


def replay(case, rec):
    es.replay_path(case, rec, None, Lock, start)
