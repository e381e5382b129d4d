"""C01: a cut never discards a point it allows."""
import math

import numpy as np

from .. import ellspace as es
from ..core import Violation

ID = "C01"
ASSUMPTIONS = ["offsets are explored as multiples of the current half-width; gradients from a fixed set of patterns",
               "containment is decided up to a relative tolerance of about 1e-7 (1e-3 for flat ellipsoids)"]


def judge(cfg, pre, op, tau, status, exc, post, space):
    par = cfg.get("par", True)
    lo, hi = es.region(op, par)
    g = op["g"]
    if es.is_flat(pre.P, g):
        # the direction has no width: whatever happens must not lose anything of what is there
        # (only for offset 0: any other offset would be a multiple of a half-width that is rounding noise)
        if op["a"] not in (0.0, [0.0, 0.0]) and op["k"] != "central":
            return
        lo, hi = -2.0, 2.0
        g = _live_direction(pre.P)
        if g is None:
            return
        if status == "Success" or status == "NoEffect" or exc is not None:
            m = es.kept_contained(pre, g, lo, hi, post)
            if m:
                raise Violation("cut along a flat direction: " + m)
        return
    if exc is not None and "error" not in es.expected_status(op, pre.n, par):
        raise Violation("valid cut rejected with %r" % exc)
    if status == "NoSoln" and "NoSoln" in es.expected_status(op, pre.n, par):
        return
    if status == "NoSoln":
        raise Violation("'no solution' although points of the ellipsoid satisfy the cut (slab %g..%g)" % (lo, hi))
    m = es.kept_contained(pre, g, lo, hi, post) or along(pre, g, lo, hi, tau, post, space)
    if m:
        raise Violation("%s update reported %s: %s" % (op["k"], status or repr(exc), m))


def along(pre, g, lo, hi, tau, post, space):
    """Both planes themselves (as far as they meet the old ellipsoid) are reached along g, however thin the slab is."""
    w = np.linalg.eigvalsh(pre.P)
    if es.DEPTH[0] > 2 or not w[0] > 1e-3 * w[-1]:
        return None
    g = np.asarray(g, dtype=float)
    noise = 1e-14 * float(np.max(np.abs(pre.xc))) * float(np.abs(g).sum()) / tau
    lo, hi = max(lo, -1.0), min(hi, 1.0)
    if lo > hi or noise > 1e-9:
        return None
    hw = math.sqrt(max(es.probe(space, g), 0.0)) / tau
    c = float(g @ (post.xc - pre.xc)) / tau
    h = max((hi - lo) / 2, 1e-12)
    tol = 1e-3 * h + min(1e-7, 1e-13 / h) + 10 * noise
    out = max(hi - (c + hw), (c - hw) - lo)
    if out > tol:
        return "points of the slab %.9g..%.9g (x half-width) stick out of the new extent %.9g..%.9g along g" % (lo, hi, c - hw, c + hw)
    return None


def _live_direction(P):
    w, V = np.linalg.eigh(P)
    if w[-1] <= 0:
        return None
    return V[:, -1].tolist()


def bounds(tier):
    q = tier == "quick"
    return {"dimensions": "2,3,4,5,7,8,10,12" if q else "2..8,10,12,13,16,17,24",
            "A": "every cut of the full alphabet (all update kinds, single and parallel, offsets at and around every boundary) as first update",
            "M": "magnitudes of the ellipsoid %s and of the gradient, parallel cuts disabled" % ("1e-8, 1e7" if q else "1e-14..1e12"),
            "S": "every pair of cuts at magnitudes 1e-13, 1e12 (thorough 1e-18..1e18)",
            "K": "rounds of cuts over all axes / skewed directions up to length %d" % (120 if q else 200),
            "T": "pairs of planes 4e-7..1e-3 half-widths apart", "V": "rounds of up to 400 central and 90 very deep cuts",
            "H": "dense cuts in dimensions 10, 12, 20, 36 (thorough up to 40)",
            "W": "shallow quantized cuts up to length %d" % (1100 if q else 3000),
            "B": "every second cut after every first cut", "C": "all sequences of length %d over 12 cuts" % (3 if q else 4),
            "L": "all words of length 1-2 repeated up to length %d" % (50 if q else 200),
            "F": "flat ellipsoids left by an equality cut, every following cut",
            "spaces": "Ell and EllStable, deferred and immediate scaling, scalar and diagonal start"}


def shards(tier):
    return es.history_shards(tier)


def run_shard(shard, rec):
    es.explore_shard(shard, rec, judge)


def replay(case, rec):
    es.replay_path(case, rec, judge)
