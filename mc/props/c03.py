"""C03: update statuses are truthful, failed updates change nothing, tsq is the pre-update width."""
import math
import pickle

import numpy as np

from .. import ellspace as es
from ..core import Violation
from .c01 import bounds  # noqa: F401
from . import c01

ID = "C03"
ASSUMPTIONS = ["at offsets within 1e-9 of a boundary between outcomes either neighbouring outcome is accepted, except where all numbers are powers of two: there the boundary itself is judged",
               "a bias pair with n*b0*b1 = -tau^2 exactly may be called a success or without effect",
               "'unchanged' is judged on the observed centre and ellipsoid up to 1e-12 relative"]


def same(a, b, tol=1e-12):
    sc = max(float(np.max(np.abs(a.P))), 1e-300)
    return (np.max(np.abs(a.P - b.P)) <= tol * sc and
            np.max(np.abs(a.xc - b.xc)) <= tol * (math.sqrt(sc) + np.max(np.abs(a.xc))))


def judge(cfg, pre, op, tau, status, exc, post, space):
    n = pre.n
    par = cfg.get("par", True)
    flat = es.is_flat(pre.P, op["g"])
    if not flat:
        want = es.expected_status(op, n, par, 0.0 if cfg.get("exact") else es.EPS)
        got = status if status is not None else "error"
        if got not in want:
            raise Violation("%s update with offset %s (x half-width) in dimension %d reported %s, expected %s"
                            % (op["k"], op["a"], n, status or repr(exc), "/".join(sorted(want))))
        t = float(space.tsq())
        if not abs(t - tau * tau) <= (1e-9 + es.slack()) * max(tau * tau, 1e-300):
            raise Violation("tsq() = %.15g after the update, but the squared half-width before it was %.15g" % (t, tau * tau))
    elif status not in (None, "Success", "NoSoln", "NoEffect"):
        raise Violation("unknown status %s" % status)
    if status != "Success" and not same(pre, post):
        raise Violation("%s changed the search space: centre %s -> %s, shape %s -> %s" % (
            status or repr(exc), pre.xc.tolist(), post.xc.tolist(), pre.P.tolist(), post.P.tolist()))
    # a zero gradient must be refused and leave everything alone
    if status != "Success" or (len(op["g"]) + int(op["g"][0] == 1.0)) % 2 == 0:
        for k in ("bias", "central", "q"):
            for z in (np.zeros(n), np.zeros(n, dtype=int)):
                sp = pickle.loads(pickle.dumps(space, protocol=5))
                try:
                    st = getattr(sp, es.UPD[k])((z, 0.1 * (tau or 1.0)))
                except ValueError:
                    st = None
                if st is not None:
                    raise Violation("zero gradient accepted by the %s update (%s)" % (k, st))
                if np.any(sp.xc() != space.xc()):
                    raise Violation("rejected zero gradient moved the centre")


def initial(cfg):
    s = es.make(cfg)
    o = es.observe(s, cfg["n"])
    want = es.init_P(cfg)
    if not np.all(np.abs(o.P - want) <= 1e-9 * np.max(want)):
        raise Violation("tsq() describes the initial shape %s as %s" % (want.tolist(), o.P.tolist()))
    if list(o.xc) != list(cfg.get("xc") or [0.0] * cfg["n"]):
        raise Violation("initial centre is %s" % o.xc)


def shards(tier):
    """The common histories plus first cuts exactly on the boundaries, in exactly representable configurations."""
    out = []
    for cls in ("Ell", "EllStable"):
        for n in ((2, 4, 8) if tier == "quick" else (2, 4, 8, 16, 32)):
            for nd in (False, True):
                for init in (["scalar", 4.0], ["scalar", 1.0], ["diag", [4.0 ** (i % 3 - 1) for i in range(n)]], ["scalar", 2.0 ** -20]):
                    out.append({"kind": "X", "cfg": {"cls": cls, "n": n, "init": init, "nodefer": nd, "exact": True}})
    for n in (2, 3):
        out += [{"kind": "R", "cfg": cfg, "part": q} for cfg in es.base_cfgs(n, tier) for q in range(2)]
    return out + c01.shards(tier)


def exact_ops(n):
    inv = 1.0 / n
    offs = [-2.0, -1.0, -0.5, -inv, -0.5 * inv, 0.0, 0.25 * inv, 0.5 * inv, inv, 0.5, 1.0, 2.0]
    cuts = [("bias", a) for a in offs] + [("q", a) for a in offs] + [("central", 0.0)]
    cuts += [(k, [x, y]) for k in ("bias", "q", "central") for x in offs for y in offs]
    for i in range(n):
        for s in (1.0, -4.0):
            g = [0.0] * n
            g[i] = s
            for k, a in cuts:
                yield {"k": k, "g": g, "a": a}


def run_shard(shard, rec):
    if shard["kind"] == "X":
        es.Walker(shard["cfg"], rec, judge).explore([list(exact_ops(shard["cfg"]["n"]))])
        return
    if shard["kind"] == "R":
        for word in es.reuse_words(shard["cfg"]["n"])[shard["part"]::2]:
            rec.run({"cfg": shard["cfg"], "reuse": word}, es.reuse, shard["cfg"], word, rec)
            rec.trace()
        return
    rec.run({"cfg": shard["cfg"], "path": []}, initial, shard["cfg"])
    es.explore_shard(shard, rec, judge)


def replay(case, rec):
    if "reuse" in case:
        return es.reuse(case["cfg"], case["reuse"], rec)
    initial(case["cfg"])
    es.replay_path(case, rec, judge)
