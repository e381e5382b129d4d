"""C13: positive definiteness decisions with certificates, against exact rational arithmetic."""
import itertools

import numpy as np

from .. import ldlt
from ..core import Violation

ID = "C13"
ASSUMPTIONS = ["matrices have small integer entries (times a power of two); decisions about singular matrices are judged only when the arithmetic is exact",
               "values are compared up to 1e-10"]


def decide(rows):
    """Expected answer: True, False or None (either)."""
    bad = ldlt.first_bad_pivot(rows)
    if bad is None:
        return True
    if bad[1] == 0 and not ldlt.exact(rows, False)[2]:
        return None
    return False


BUF = {}


def examine(mgr, rows, mode, scale, rec):
    """Factor one matrix on mgr and judge everything; returns a comparable summary."""
    n = len(rows)
    arr = np.array(rows, dtype=float) * scale
    keep = arr.copy()
    if mode == "array":
        got = mgr.factorize(arr)
        high = None
    elif mode == "inplace":                 # the same array object, overwritten
        buf = BUF.setdefault(n, np.zeros((n, n)))
        buf[:] = arr
        got = mgr.factorize(buf)
        high = None
    elif mode == "int" and scale == 1.0:
        got = mgr.factorize(np.array(rows))
        high = None
    else:
        rd = ldlt.Reader(arr)
        got = mgr.factor(rd)
        high = rd.high
    rec.step()
    rec.check()
    if not np.array_equal(arr, keep):
        raise Violation("the factorized matrix was modified")
    want = decide(rows)
    if want is not None and bool(got) != want:
        raise Violation("factorization of %s answered %s, exact arithmetic says %s" % (arr.tolist(), got, want))
    if bool(mgr.is_spd()) != bool(got):
        raise Violation("is_spd() contradicts the factorization")
    s = scale * max(1.0, max(abs(v) for r in rows for v in r))
    if got:
        if want is None:
            return None
        R = ldlt.check_sqrt(mgr, arr, s)
        ldlt.refuses(mgr.witness, "witness of a definite matrix was not refused")
        rec.outcome("definite")
        return ("pd", R.tolist())
    bad = ldlt.first_bad_pivot(rows)
    ep = ldlt.check_witness(mgr, arr, s)
    ldlt.refuses(mgr.sqrt, "root of an indefinite matrix was not refused")
    st, e = mgr.pos
    if want is False and e != bad[0] + 1:
        raise Violation("range %s reported, but the leading part of size %d is the first that is not definite" % (mgr.pos, bad[0] + 1))
    if high is not None and high > e - 1:
        raise Violation("element index %d was read although rows up to %d decide" % (high, e - 1))
    # asking again must not change anything
    ep2 = float(mgr.witness())
    if ep2 != ep:
        raise Violation("witness() gives %r, then %r" % (ep, ep2))
    rec.outcome("refused at %d" % e)
    return ("no", (st, e), ep, np.array(mgr.wit[st:e]).tolist())


def single(rows, mode, scale, rec):
    from ellalgo.oracles.ldlt_mgr import LDLTMgr

    examine(LDLTMgr(len(rows)), rows, mode, scale, rec)


REP3 = [
    [[2, 1, 0], [1, 2, 1], [0, 1, 2]],
    [[4, 2, -2], [2, 5, 0], [-2, 0, 6]],
    [[-1, 1, 2], [1, 3, 0], [2, 0, 3]],
    [[0, 1, 0], [1, 0, 1], [0, 1, 0]],
    [[1, 2, 0], [2, 1, 1], [0, 1, 9]],
    [[1, 1, 5], [1, 2, 0], [5, 0, 3]],
    [[1, 1, 1], [1, 1, 1], [1, 1, 1]],
    [[2, -1, 0], [-1, 1, -1], [0, -1, 1]],
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[3, 1, 1], [1, 3, 1], [1, 1, 3]],
]
REP4 = [
    [[2, 1, 0, 0], [1, 2, 1, 0], [0, 1, 2, 1], [0, 0, 1, 2]],
    [[1, 0, 0, 3], [0, 1, 0, 0], [0, 0, 1, 0], [3, 0, 0, 1]],
    [[1, 0, 2, 0], [0, 1, 0, 0], [2, 0, 1, 0], [0, 0, 0, 1]],
    [[-2, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]],
    [[4, 2, 1, 0], [2, 4, 2, 1], [1, 2, 4, 2], [0, 1, 2, 4]],
    [[1, -2, 0, 1], [-2, 3, 1, 0], [0, 1, 5, 0], [1, 0, 0, 5]],
]


def history(seq, modes, rec):
    """One manager for a whole sequence; every answer as from a fresh one."""
    from ellalgo.oracles.ldlt_mgr import LDLTMgr

    mgr = LDLTMgr(len(seq[0]))
    for rows, mode in zip(seq, modes):
        if mode == "semi":
            arr = np.array(rows, dtype=float)
            mgr.factor_with_allow_semidefinite(lambda i, j: arr[i, j])
            if not mgr.is_spd():
                mgr.witness()
            continue
        a = examine(mgr, rows, mode, 1.0, rec)
        b = examine(LDLTMgr(len(rows)), rows, mode, 1.0, rec)
        if a != b:
            raise Violation("reused manager answers %s, a fresh one %s" % (a, b))


def bounds(tier):
    return {"matrices": "all symmetric: n=1, n=2 (entries -4..4), n=3 (diag -1..3, off -2..2), n=4 (diag 0..3, off -1..1), banded n=5..%d, LDL' products with pivots 0, +-1, +-2^12, 2^24 in every order (n=2..5), n=9, 12, 17, 33 with one deviating pivot at every position" % (8 if tier == "quick" else 12),
            "scales": [1.0, 2.0 ** -100, 2.0 ** -44, 2.0 ** 70], "graded": "every fourth matrix also with rows and columns scaled by powers of two between 1 and 2^22", "histories": "all ordered triples of 10 (n=3) and 6 (n=4) representatives, array / element / semidefinite calls"}


def shards(tier):
    sh = [dict(s, kind="m") for s in ldlt.space(tier)]
    for i in range(len(REP3)):
        sh.append({"kind": "h", "set": 3, "first": i, "len": 3 if tier == "quick" else 4})
    for i in range(len(REP4)):
        sh.append({"kind": "h", "set": 4, "first": i, "len": 3 if tier == "quick" else 4})
    return sh


def run_shard(shard, rec):
    if shard["kind"] == "m":
        k = 0
        for rows in ldlt.shard_matrices(shard):
            k += 1
            rec.state(rows)
            for mode, scale in (("array", 1.0), ("elem", 1.0)) if k % 4 else (("int", 1.0), ("elem", 2.0 ** -44), ("array", 2.0 ** 70), ("array", 2.0 ** -100), ("elem", 1.0)):
                rec.run({"rows": rows, "mode": mode, "scale": scale}, single, rows, mode, scale, rec)
                rec.trace()
            if k % 4 == 1 and 1 < len(rows) <= 8 and max(abs(v) for r in rows for v in r) < 100:
                g, mode = ldlt.graded(rows, k // 4), ("array", "elem")[k // 4 % 2]
                rec.state(g)
                rec.run({"rows": g, "mode": mode, "scale": 1.0}, single, g, mode, 1.0, rec)
                rec.trace()
        rec.sample({"matrix": rows})
        return
    R = REP3 if shard["set"] == 3 else REP4
    L = shard["len"]
    for seq in itertools.product(range(len(R)), repeat=L - 1):
        mats = [R[shard["first"]]] + [R[i] for i in seq]
        for modes in (["array"] * L, ["inplace"] * L, ["elem"] * L, ["array", "semi", "elem", "array"][:L], ["semi", "elem", "semi", "array"][:L]):
            rec.run({"seq": mats, "modes": modes}, history, mats, modes, rec)
            rec.trace()


def replay(case, rec):
    if "seq" in case:
        history(case["seq"], case["modes"], rec)
    else:
        single(case["rows"], case["mode"], case["scale"], rec)
