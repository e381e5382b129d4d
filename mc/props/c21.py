"""C21: the semidefinite factorization, against exact rational arithmetic."""
import itertools

import numpy as np

from .. import ldlt
from ..core import Violation
from .c13 import REP3, REP4

ID = "C21"
ASSUMPTIONS = ["matrices have small integer entries (times a power of two); matrices with a zero pivot are judged only when the arithmetic is exact",
               "KNOWN FINDING: indefinite matrices accepted after an exactly zero pivot are recognised by an exact emulation of the restart rule"]


def examine(mgr, rows, scale, rec, case=None):
    arr = np.array(rows, dtype=float) * scale
    keep = arr.copy()
    rd = ldlt.Reader(arr)
    got = bool(mgr.factor_with_allow_semidefinite(rd))
    rec.step()
    rec.check()
    if not np.array_equal(arr, keep):
        raise Violation("the factorized matrix was modified")
    if bool(mgr.is_spd()) != got:
        raise Violation("is_spd() contradicts the factorization")
    psd = ldlt.is_psd(rows)
    emu, rng, exactly = ldlt.exact(rows, True)
    bad = ldlt.first_bad_pivot(rows)
    zero = bad is not None and bad[1] == 0
    s = scale * max(1.0, max(abs(v) for r in rows for v in r))
    if zero and not exactly:
        rec.outcome("rounding decides")
        return None
    if got and not psd:
        if emu and zero:
            rec.known_finding("semidefinite-zero-pivot-accepts-indefinite", {"matrix": rows, "case": case})
            rec.outcome("known: indefinite accepted after zero pivot")
            return ("ok", None)
        raise Violation("indefinite matrix %s accepted" % arr.tolist())
    if not got and psd:
        raise Violation("semidefinite matrix %s refused" % arr.tolist())
    if got:
        if bad is None:                        # positive definite: like the strict factorization
            R = ldlt.check_sqrt(mgr, arr, s)
            ldlt.refuses(mgr.witness, "witness of a definite matrix was not refused")
            rec.outcome("definite")
            return ("ok", R.tolist())
        rec.outcome("semidefinite")
        return ("ok", None)
    ep = ldlt.check_witness(mgr, arr, s, ep_zero_ok=False)
    if rd.high > mgr.pos[1] - 1:
        raise Violation("element index %d was read although rows up to %d decide" % (rd.high, mgr.pos[1] - 1))
    ldlt.refuses(mgr.sqrt, "root of an indefinite matrix was not refused")
    rec.outcome("refused over %s" % (tuple(mgr.pos),))
    st, e = mgr.pos
    return ("no", (st, e), ep, np.array(mgr.wit[st:e]).tolist())


def single(rows, scale, rec):
    from ellalgo.oracles.ldlt_mgr import LDLTMgr

    m = LDLTMgr(len(rows))
    a = examine(m, rows, scale, rec, {"rows": rows, "scale": scale})
    if a is not None and a[0] == "ok" and a[1] is not None:
        arr = np.array(rows, dtype=float) * scale
        f = LDLTMgr(len(rows))
        if not f.factor(lambda i, j: arr[i, j]) or not np.allclose(f.sqrt(), a[1], rtol=1e-12, atol=0):
            raise Violation("strict and semidefinite factorization of a definite matrix differ")


def history(seq, modes, rec):
    from ellalgo.oracles.ldlt_mgr import LDLTMgr

    mgr = LDLTMgr(len(seq[0]))
    for rows, mode in zip(seq, modes):
        if mode == "strict":
            if not mgr.factorize(np.array(rows, dtype=float)):
                mgr.witness()
            continue
        a = examine(mgr, rows, 1.0, rec, {"seq": seq, "modes": modes})
        b = examine(LDLTMgr(len(rows)), rows, 1.0, rec, {"seq": seq, "modes": modes})
        if a != b:
            raise Violation("reused manager answers %s, a fresh one %s" % (a, b))


EXTRA3 = [[[1, 2, 0], [2, 4, 0], [0, 0, 1]], [[0, 0, 0], [0, 2, 1], [0, 1, 2]], [[4, 2, 0], [2, 1, 0], [0, 0, -1]],
          [[0, 0, 0], [0, 1, 2], [0, 2, 1]], [[1, 0, 0], [0, 0, 0], [0, 0, 2]]]


def bounds(tier):
    return {"matrices": "all symmetric: n=1, n=2 (entries -4..4), n=3 (diag -1..3, off -2..2), n=4 (diag 0..3, off -1..1), banded n=5..%d, LDL' products with pivots 0, +-1, +-2^12, 2^24 in every order (n=2..5), n=9, 12, 17, 33 with one deviating pivot at every position" % (8 if tier == "quick" else 12),
            "scales": [1.0, 2.0 ** -44, 2.0 ** 70], "graded": "every fourth matrix also with rows and columns scaled by powers of two between 1 and 2^22", "histories": "all ordered triples of 15 (n=3) and 6 (n=4) representatives, mixed with strict factorizations"}


def shards(tier):
    sh = [dict(s, kind="m") for s in ldlt.space(tier)]
    for i in range(len(REP3) + len(EXTRA3)):
        sh.append({"kind": "h", "set": 3, "first": i, "len": 3 if tier == "quick" else 4})
    for i in range(len(REP4)):
        sh.append({"kind": "h", "set": 4, "first": i, "len": 3 if tier == "quick" else 4})
    return sh


def run_shard(shard, rec):
    if shard["kind"] == "m":
        for k, rows in enumerate(ldlt.shard_matrices(shard)):
            rec.state(rows)
            for scale in (1.0,) if k % 4 else (1.0, 2.0 ** -44, 2.0 ** 70):
                rec.run({"rows": rows, "scale": scale}, single, rows, scale, rec)
                rec.trace()
            if k % 4 == 1 and 1 < len(rows) <= 8 and max(abs(v) for r in rows for v in r) < 100:
                g = ldlt.graded(rows, k // 4)
                rec.state(g)
                rec.run({"rows": g, "scale": 1.0}, single, g, 1.0, rec)
                rec.trace()
        rec.sample({"matrix": rows})
        return
    R = REP3 + EXTRA3 if shard["set"] == 3 else REP4
    L = shard["len"]
    for seq in itertools.product(range(len(R)), repeat=L - 1):
        mats = [R[shard["first"]]] + [R[i] for i in seq]
        for modes in (["semi"] * L, ["strict", "semi", "strict", "semi"][:L], ["semi", "strict", "semi", "semi"][:L]):
            rec.run({"seq": mats, "modes": modes}, history, mats, modes, rec)
            rec.trace()


def replay(case, rec):
    if "seq" in case:
        history(case["seq"], case["modes"], rec)
    else:
        single(case["rows"], case["scale"], rec)
