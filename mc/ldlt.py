"""Exact reference for the LDL^T checks (C13, C21): rational arithmetic on enumerated matrices."""
import itertools
from fractions import Fraction

import numpy as np

from .core import Violation


def dyadic(f):
    d = f.denominator
    return d & (d - 1) == 0


def exact(rows, semidefinite):
    """Row-by-row LDL^T in exact arithmetic, with the documented restart after a zero pivot if semidefinite.

    Returns (accepted, (start, stop), exactly_representable)."""
    n = len(rows)
    A = [[Fraction(v) for v in r] for r in rows]
    S = [[Fraction(0)] * n for _ in range(n)]
    start, ok = 0, True
    for i in range(n):
        diag = A[i][start]
        for j in range(start, i):
            S[j][i] = diag
            S[i][j] = diag / S[j][j]
            ok = ok and dyadic(S[i][j])
            diag = A[i][j + 1] - sum((S[i][k] * S[k][j + 1] for k in range(start, j + 1)), Fraction(0))
        S[i][i] = diag
        if semidefinite:
            if diag < 0:
                return False, (start, i + 1), ok
            if diag == 0:
                start = i + 1
        elif diag <= 0:
            return False, (start, i + 1), ok
    return True, (0, 0), ok


def first_bad_pivot(rows):
    """(index, value) of the first nonpositive pivot of the plain factorization in exact arithmetic, or None."""
    n = len(rows)
    A = [[Fraction(v) for v in r] for r in rows]
    for k in range(n):
        if A[k][k] <= 0:
            return k, A[k][k]
        for i in range(k + 1, n):
            f = A[i][k] / A[k][k]
            for j in range(k, n):
                A[i][j] -= f * A[k][j]
    return None


def is_psd(rows):
    """Exact semidefiniteness."""
    n = len(rows)
    A = [[Fraction(v) for v in r] for r in rows]
    live = list(range(n))
    while live:
        k = live[0]
        d = A[k][k]
        if d < 0:
            return False
        rest = live[1:]
        if d == 0:
            if any(A[i][k] != 0 for i in rest):
                return False
        else:
            for i in rest:
                f = A[i][k] / d
                for j in rest:
                    A[i][j] -= f * A[k][j]
        live = rest
    return True


def sym(n, diag, off):
    M = [[0] * n for _ in range(n)]
    it = iter(off)
    for i in range(n):
        M[i][i] = diag[i]
        for j in range(i):
            M[i][j] = M[j][i] = next(it)
    return M


def matrices(n, dvals, ovals):
    for d in itertools.product(dvals, repeat=n):
        for o in itertools.product(ovals, repeat=n * (n - 1) // 2):
            yield sym(n, d, o)


def banded(n, dvals, o1, o2):
    """Toeplitz-like band matrices with one deviating diagonal entry: all positions."""
    for d in dvals:
        for a in o1:
            for b in o2:
                for pos in range(n):
                    for dev in dvals:
                        M = [[0] * n for _ in range(n)]
                        for i in range(n):
                            M[i][i] = d if i != pos else dev
                            if i:
                                M[i][i - 1] = M[i - 1][i] = a
                            if i > 1:
                                M[i][i - 2] = M[i - 2][i] = b
                        yield M


def products(n, dvals, pattern):
    """L D L' for all D: every pivot, however small relative to the diagonal, is exact in floating point."""
    L = [[0] * n for _ in range(n)]
    for i in range(n):
        L[i][i] = 1
        for j in range(i):
            L[i][j] = {"ones": 1, "alt": (-1) ** (i + j) * (1 + (i + 2 * j) % 3), "big": 128 if j == i - 1 else (i + j) % 2, "mixed": (0, 7, -64)[(i + j) % 3]}[pattern]
    for d in itertools.product(dvals, repeat=n):
        yield [[sum(L[i][k] * d[k] * L[j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]


def large(n, pattern, devs):
    """L D L' with D = 1 except one entry, at every position; exact in floating point."""
    L = [[0] * n for _ in range(n)]
    for i in range(n):
        L[i][i] = 1
        for j in range(i):
            L[i][j] = {"ones": 1, "band": (0, 2, -1)[i - j] if i - j < 3 else 0, "far": 3 if j == 0 else (-1 if i - j == n // 2 else 0)}[pattern]
    for pos in range(n):
        for dev in devs:
            d = [1 + k % 2 for k in range(n)]
            d[pos] = dev
            yield [[sum(L[i][k] * d[k] * L[j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]


def space(tier):
    """Shard descriptions of the matrix space."""
    big = tier == "thorough"
    out = [{"n": 1, "d": list(range(-3, 4)), "o": [0], "d0": None}]
    for d0 in range(-3, 5):
        out.append({"n": 2, "d": list(range(-3, 5)), "o": list(range(-4, 5)), "d0": d0})
    for d0 in ((-1, 0, 1, 2, 3) if not big else (-1, 0, 1, 2, 3, 4)):
        for d1 in ((-1, 0, 1, 2, 3) if not big else (-1, 0, 1, 2, 3, 4)):
            out.append({"n": 3, "d": [-1, 0, 1, 2, 3] if not big else [-1, 0, 1, 2, 3, 4], "o": [-2, -1, 0, 1, 2] if not big else [-3, -2, -1, 0, 1, 2, 3], "d0": d0, "d1": d1})
    for d0 in ((1, 2) if not big else (0, 1, 2, 3)):
        for d1 in ((1, 2) if not big else (0, 1, 2, 3)):
            for d2 in ((0, 1, 2) if not big else (0, 1, 2, 3)):
                out.append({"n": 4, "d": [0, 1, 3] if not big else [-1, 0, 1, 2, 3], "o": [-1, 0, 1], "d0": d0, "d1": d1, "d2": d2})
    for n in (2, 3, 4, 5) if not big else (2, 3, 4, 5, 6):
        for p in ("ones", "alt", "big", "mixed"):
            out.append({"n": n, "prod": p, "d": [2 ** 12, 1, -1, 0, -(2 ** 12), 2 ** 24] if n < 5 else [2 ** 12, 1, -1] if n > 5 or not big else [2 ** 12, 1, -1, 0]})
    for n in ((5, 6, 8) if not big else (5, 6, 7, 8, 10, 12)):
        out.append({"n": n, "band": True})
    for n in (9, 12, 17, 33) if not big else (9, 10, 11, 12, 13, 16, 17, 20, 25, 33, 40):
        for p in ("ones", "band", "far"):
            for dev in ([-1, 0], [8]) if n > 20 else ([-1, 0, 8, -4],):
                out.insert(0, {"n": n, "large": p, "d": dev})
    return out


def shard_matrices(sh):
    n = sh["n"]
    if sh.get("band"):
        yield from banded(n, [-1, 0, 1, 2, 4, 6], [-2, -1, 0, 1], [0, 1])
        return
    if sh.get("large"):
        yield from large(n, sh["large"], sh["d"])
        return
    if sh.get("prod"):
        yield from products(n, sh["d"], sh["prod"])
        return
    heads = [sh.get("d%d" % i) for i in range(3)]
    fixed = [h for h in heads if h is not None]
    for rest in itertools.product(sh["d"], repeat=n - len(fixed)):
        for o in itertools.product(sh["o"], repeat=n * (n - 1) // 2):
            yield sym(n, list(fixed) + list(rest), o)


class Reader:
    """Element access that records what was read."""

    def __init__(self, arr):
        self.arr, self.high = arr, -1

    def __call__(self, i, j):
        self.high = max(self.high, i, j)
        return self.arr[i, j]


TEST_MATS = {}


def quad_mats(n):
    if n not in TEST_MATS:
        i = np.arange(n)
        TEST_MATS[n] = [np.eye(n), np.add.outer(i, i).astype(float), np.diag(i * 1.0 - 1.0) + 0.25 * np.ones((n, n))]
    return TEST_MATS[n]


def graded(rows, k):
    """D A D with powers of two of very different size on the diagonal of D."""
    n = len(rows)
    e = [(20, 0, 9, 14, 3, 18, 1, 11), (0, 21, 10, 4, 16, 7, 19, 2), (3, 12, 22, 0, 8, 17, 5, 13)][k % 3]
    D = [2 ** e[i % 8] for i in range(n)]
    return [[D[i] * rows[i][j] * D[j] for j in range(n)] for i in range(n)]


def check_witness(mgr, arr, scale, ep_zero_ok=True):
    """Certificate validity; returns ep."""
    n = arr.shape[0]
    s, e = mgr.pos
    if not (0 <= s < e <= n):
        raise Violation("refused, but the reported range is %s" % (mgr.pos,))
    ep = float(mgr.witness())
    v = np.array(mgr.wit[s:e], dtype=float)
    if not (np.all(np.isfinite(v)) and np.isfinite(ep)):
        raise Violation("witness is not finite: %s, ep=%s" % (v, ep))
    if not np.any(np.abs(v) > 1e-9):
        raise Violation("witness vector over the reported range %s is zero" % (mgr.pos,))
    B = arr[s:e, s:e]
    val = float(v @ B @ v)
    tol = min(1e-10 * scale * max(1.0, float(v @ v)), 1e-9 * float(np.abs(v) @ np.abs(B) @ np.abs(v)))
    if abs(val + ep) > tol:
        raise Violation("witness %s over %s gives v'Av = %.12g, but ep = %.12g" % (v.tolist(), mgr.pos, val, ep))
    if ep < -tol or (ep <= 0 <= val and not ep_zero_ok):
        raise Violation("ep = %.12g is no certificate of indefiniteness" % ep)
    for Q in quad_mats(n):
        q = float(mgr.sym_quad(Q))
        w = float(v @ Q[s:e, s:e] @ v)
        if abs(q - w) > 1e-10 * max(1.0, float(v @ v)) * max(1.0, np.max(np.abs(Q))):
            raise Violation("sym_quad gives %.12g, v'Qv over the reported range %s is %.12g" % (q, mgr.pos, w))
    if tuple(mgr.pos) != (s, e):
        raise Violation("evaluating the witness changed the reported range")
    return ep


def check_sqrt(mgr, arr, scale):
    R = np.asarray(mgr.sqrt())
    n = arr.shape[0]
    if R.shape != (n, n) or np.any(np.abs(np.tril(R, -1)) > 0):
        raise Violation("square root is not upper triangular: %s" % R.tolist())
    d = np.sqrt(np.abs(np.diag(arr)))
    if np.any(np.abs(R.T @ R - arr) > 1e-9 * np.outer(d, d)):
        raise Violation("R'R = %s differs from A = %s" % ((R.T @ R).tolist(), arr.tolist()))
    if not np.all(np.diag(R) > 0):
        raise Violation("square root has a nonpositive diagonal")
    return R


def refuses(fn, what):
    try:
        fn()
    except AssertionError:
        return
    raise Violation(what)
