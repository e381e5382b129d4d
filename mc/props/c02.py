"""C02: every accepted cut shrinks the ellipsoid as promised (volume bound, minimality, valid shape)."""
import math

import numpy as np

from .. import ellspace as es
from ..core import Violation
from .c01 import bounds, shards  # same bounded space  # noqa: F401

ID = "C02"
ASSUMPTIONS = ["volumes are compared up to a relative error of 4e-9 (more for ill-conditioned ellipsoids, none for flat ones)",
               "minimality is judged when both planes meet the ellipsoid"]
_MIN = {}


def judge(cfg, pre, op, tau, status, exc, post, space):
    if status != "Success":
        return
    n = pre.n
    par = cfg.get("par", True)
    if es.is_flat(pre.P, op["g"]):
        return
    if not (np.all(np.isfinite(post.P)) and np.all(np.isfinite(post.xc))):
        raise Violation("update reported success but the space is not finite: xc=%s P=%s" % (post.xc, post.P))
    w = np.linalg.eigvalsh(post.P)
    w0, V0 = np.linalg.eigh(pre.P)
    if w[0] < -1e-9 * max(abs(w[-1]), abs(w0[-1])) - 1e-300:
        raise Violation("shape is not positive semidefinite (eigenvalues %s)" % w.tolist())
    r = es.log_volume_ratio(pre, post)
    if r is None:
        return
    cond = w0[-1] / w0[0]
    tol = 2e-9 + 1e-13 * cond * n + es.slack() * cond ** 0.5
    if r > -math.inf:
        # the volume of a very flat result is only known up to rounding
        s = np.sqrt(w0)
        qw = np.linalg.eigvalsh((V0 / s).T @ post.P @ (V0 / s))
        tol += 1e-13 * cond * abs(qw[-1] / max(qw[0], 1e-300))
    lo, hi = es.region(op, par)
    if hi <= 0 and op["k"] != "q":
        if r > -1.0 / (2 * (n + 1)) + tol:
            raise Violation("volume factor %.9g exceeds the guaranteed %.9g" % (math.exp(r), math.exp(-1.0 / (2 * (n + 1)))))
    if r > tol:
        raise Violation("volume increased by the factor %.9g" % math.exp(r))
    lo_ = max(lo, -1.0)
    if -1 <= hi <= 1 and (lo == -math.inf or lo <= 1):
        key = (n, round(lo_, 12), round(hi, 12))
        if key not in _MIN:
            _MIN[key] = es.min_log_volume(n, lo_, hi)
        m = _MIN[key]
        if m == -math.inf:
            if r != -math.inf:
                raise Violation("an equality cut must flatten the ellipsoid, but its volume factor is %.3g" % math.exp(r))
        elif r == -math.inf:
            if m > 0.5 * math.log(1e-6):
                raise Violation("ellipsoid collapsed; minimum enclosing volume factor is %.6g" % math.exp(m))
        elif abs(r - m) > 2 * tol:
            raise Violation("volume factor %.9g, but the smallest enclosing ellipsoid has %.9g" % (math.exp(r), math.exp(m)))


def run_shard(shard, rec):
    es.explore_shard(shard, rec, judge)


def replay(case, rec):
    es.replay_path(case, rec, judge)
