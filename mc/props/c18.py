"""C18: conjugate gradient against an exact rational run of the method, over all enumerated systems, guesses and limits."""
import itertools
from fractions import Fraction

import numpy as np

from .. import ldlt
from ..core import Violation

ID = "C18"
ASSUMPTIONS = ["entries are small integers (also scaled by 1e6 and 1e-6) or those of Hilbert matrices up to size 5",
               "outcomes whose exact residual is within 0.1% of the tolerance, or below 1e-9 of the data, may go either way"]


def exact_residuals(A, b, x0, steps):
    """Squared residual norms of exact CG after 0..k steps (stops at zero)."""
    n = len(b)
    F = [[Fraction(v) for v in r] for r in A]
    x = [Fraction(v) for v in x0]
    r = [Fraction(b[i]) - sum(F[i][j] * x[j] for j in range(n)) for i in range(n)]
    p = list(r)
    rr = sum(v * v for v in r)
    out = [rr]
    for _ in range(steps):
        if rr == 0:
            break
        Ap = [sum(F[i][j] * p[j] for j in range(n)) for i in range(n)]
        d = sum(p[i] * Ap[i] for i in range(n))
        if d == 0:
            break
        a = rr / d
        r = [r[i] - a * Ap[i] for i in range(n)]
        new = sum(v * v for v in r)
        p = [r[i] + (new / rr) * p[i] for i in range(n)]
        rr = new
        out.append(rr)
    return out


def call(A, b, x0, tol, max_iter, form, scale):
    from ellalgo.conjugate_gradient import conjugate_gradient

    dt = int if form == "int" else float
    Am, bv = np.array(A, dtype=dt), np.array(b, dtype=dt)
    if scale != 1.0:
        Am, bv = Am * scale, bv * scale
    xv = None if x0 is None else np.array(x0, dtype=dt)
    keep = (Am.copy(), bv.copy(), None if xv is None else xv.copy())
    kw = {}
    if tol is not None:
        kw["tol"] = tol
    if max_iter is not None:
        kw["max_iter"] = max_iter
    try:
        x = conjugate_gradient(Am, bv, xv, **kw) if xv is not None else conjugate_gradient(Am, bv, **kw)
    except ValueError:
        x = None
    if not (np.array_equal(Am, keep[0]) and np.array_equal(bv, keep[1]) and (xv is None or np.array_equal(xv, keep[2]))):
        raise Violation("the solver modified its input")
    if x is not None:
        x = np.asarray(x, dtype=float)
        if x.shape != bv.shape:
            raise Violation("result has shape %s" % (x.shape,))
        if xv is not None and np.shares_memory(x, xv):
            raise Violation("the result shares memory with the initial guess")
    return x, Am, bv


def one(A, b, x0, tol, max_iter, form, scale, spd, rec):
    x, Am, bv = call(A, b, x0, tol, max_iter, form, scale)
    t = 1e-5 if tol is None else tol
    lim = 1000 if max_iter is None else max_iter
    rec.step()
    rec.check()
    mag = float(np.max(np.abs(bv))) + float(np.max(np.abs(Am))) * (1.0 + (max(map(abs, x0)) if x0 else 0.0))
    if x is not None:
        res = float(np.linalg.norm(bv - Am.astype(float) @ x))
        if not res < t * (1 + 1e-6) + 1e-11 * mag * (1.0 + float(np.max(np.abs(x)))):
            raise Violation("returned %s with residual %.6g, tolerance %g (A=%s, b=%s, x0=%s, max_iter=%s)" % (x.tolist(), res, t, A, b, x0, lim))
    if not spd:
        rec.outcome("other matrix: " + ("solved" if x is not None else "refused"))
        return
    if len(b) > 11 and lim > 8:
        # well conditioned: must be solved; the exact residual after many steps is not needed
        if x is None:
            raise Violation("ValueError within %d steps for a well conditioned system of size %d (b=%s, x0=%s)" % (lim, len(b), b, x0))
        rec.outcome("solved")
        return
    rs = exact_residuals(A, b, x0 or [0] * len(b), lim if lim < 20 else 20)
    rs = [float(r) ** 0.5 * scale for r in rs]
    reach = min(rs)
    if reach < t * 0.999 and t > 1e-9 * mag and x is None:
        raise Violation("ValueError although exact CG reaches residual %.3g < %g in %d of %s steps (A=%s, b=%s, x0=%s)" % (reach, t, rs.index(reach), lim, A, b, x0))
    if reach > t * 1.001 and lim < 20 and x is not None:
        # a better solution than CG can have after max_iter steps
        raise Violation("returned a solution although %d steps reach only residual %.3g, tolerance %g (A=%s, b=%s, x0=%s)" % (lim, reach, t, A, b, x0))
    rec.outcome("solved" if x is not None else "gave up")


def ill(n):
    """Ill-conditioned systems, on which rounding makes the method need many more than n steps."""
    H = np.array([[1.0 / (i + j + 1) for j in range(n)] for i in range(n)])
    yield "hilbert", H
    yield "hilbert+1e-9", H + 1e-9 * np.eye(n)
    yield "graded", np.diag(10.0 ** np.linspace(0, 7, n)) + 1.0
    yield "graded2", np.diag(10.0 ** np.linspace(-3, 3, n)) + np.diag([1e-4] * (n - 1), 1) + np.diag([1e-4] * (n - 1), -1)


def float_steps(A, b, x, tol, lim):
    """Steps a plain floating-point run of the method needs."""
    r = b - A @ x
    p, rr = r.copy(), float(r @ r)
    for k in range(lim):
        Ap = A @ p
        a = rr / float(p @ Ap)
        x, r = x + a * p, r - a * Ap
        new = float(r @ r)
        if new ** 0.5 < tol:
            return k + 1
        p, rr = r + (new / rr) * p, new
    return None


def ill_case(n, name, bi, x0, tol, lim, rec):
    A = dict(ill(n))[name]
    b = np.array([[1.0] * n, [1.0] + [0.0] * (n - 1), list(range(1, n + 1)), [(-1.0) ** i for i in range(n)]][bi], dtype=float)
    x, _, _ = call(A.tolist(), b.tolist(), x0, tol, lim, "float", 1.0)
    t, m = 1e-5 if tol is None else tol, 1000 if lim is None else lim
    rec.step()
    rec.check()
    if x is None:
        k = float_steps(A, b, np.array(x0 or [0.0] * n, dtype=float), t, m)
        if k is not None and 4 * k + 20 <= m:
            raise Violation("ValueError within %d steps although %d suffice (%s system of size %d, right-hand side %d, x0=%s, tol=%g)" % (m, k, name, n, bi, x0, t))
        rec.outcome("gave up")
        return
    res = float(np.linalg.norm(b - A @ x))
    if not res < t * (1 + 1e-6) + 1e-14 * n * n * float(np.max(np.abs(A))) * max(1.0, float(np.max(np.abs(x)))) * 10:
        raise Violation("residual %.6g, tolerance %g (%s system of size %d, right-hand side %d, x0=%s)" % (res, t, name, n, bi, x0))
    rec.outcome("solved, ill-conditioned")


EDGE = [  # A, b, x0, residual after 0 steps, after 1 step (all exact in floating point)
    ([[2, 0], [0, 2]], [3, 4], None, 5.0, 0.0),
    ([[1, 0], [0, 1]], [3, 5], [0, 1], 5.0, 0.0),
    ([[1, 0, 0, 0], [0, 3, 0, 0], [0, 0, 1, 0], [0, 0, 0, 3]], [1, 1, 1, 1], None, 2.0, 1.0),
    ([[1, 0, 0, 0], [0, 3, 0, 0], [0, 0, 1, 0], [0, 0, 0, 3]], [2, 4, 2, 4], [1, 1, 1, 1], 2.0, 1.0),
]


def edge_case(i, step, rec):
    """A residual equal to the tolerance is not below it."""
    A, b, x0, r0, r1 = EDGE[i]
    t = (r0, r1)[step]
    rec.step(2)
    rec.check(2)
    if t > 0:
        x, _, _ = call(A, b, x0, t, step, "float", 1.0)
        if x is not None:
            raise Violation("returned %s with residual %g, which is not below the tolerance %g (A=%s, b=%s, x0=%s)" % (x.tolist(), t, t, A, b, x0))
    x, _, _ = call(A, b, x0, t + 0.25, step, "float", 1.0)
    if x is None:
        raise Violation("ValueError although %d steps reach residual %g, tolerance %g (A=%s, b=%s, x0=%s)" % (step, t, t + 0.25, A, b, x0))
    rec.outcome("residual equal to the tolerance")


def spd_matrices(n, tier):
    if n == 1:
        for a in (1, 2, 3, 7):
            yield [[a]]
    elif n == 2:
        for a, c in itertools.product(range(1, 6), repeat=2):
            for o in range(-4, 5):
                if a * c - o * o > 0:
                    yield [[a, o], [o, c]]
    elif n == 3:
        D = (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 7)
        for d in itertools.product(D, repeat=3):
            for o in itertools.product((-2, -1, 0, 1) if tier == "quick" else (-2, -1, 0, 1, 2), repeat=3):
                M = ldlt.sym(3, d, o)
                if ldlt.first_bad_pivot(M) is None:
                    yield M
    elif n >= 4:
        for M in ldlt.banded(n, [2, 4, 6], [-2, -1, 0, 1], [0, 1]):
            if ldlt.first_bad_pivot(M) is None:
                yield M


OTHER = [[[0, 1], [1, 0]], [[1, 2], [2, 1]], [[-1, 0], [0, 1]], [[0, 0], [0, 0]], [[1, 1], [1, 1]], [[1, 2], [0, 1]], [[0, 1], [-1, 0]],
         [[1, 0, 0], [0, -1, 0], [0, 0, 2]], [[0, 1, 0], [1, 0, 1], [0, 1, 0]], [[-2, 1, 0], [1, -2, 1], [0, 1, -2]], [[1, 1, 0], [0, 1, 1], [0, 0, 1]]]


def solve_exact(A, b):
    n = len(b)
    M = [[Fraction(v) for v in r] + [Fraction(b[i])] for i, r in enumerate(A)]
    for k in range(n):
        p = next(i for i in range(k, n) if M[i][k] != 0)
        M[k], M[p] = M[p], M[k]
        M[k] = [v / M[k][k] for v in M[k]]
        for i in range(n):
            if i != k and M[i][k]:
                f = M[i][k]
                M[i] = [a - f * c for a, c in zip(M[i], M[k])]
    return [M[i][n] for i in range(n)]


def rhs(n, tier):
    if n == 1:
        return [(v,) for v in (-3, 0, 1, 5)]
    if n == 2:
        return list(itertools.product((-2, 0, 1, 3), repeat=2))
    if n == 3:
        return [(0, 0, 0), (1, 0, 0), (0, 1, -2), (1, 1, 1), (3, -2, 5)]
    e = [tuple(1 if i == k else 0 for i in range(n)) for k in (0, n - 1)]
    return e + [tuple(range(1, n + 1)), (0,) * n, tuple((-1) ** i * (i + 1) for i in range(n))]


def guesses(A, b, n):
    out = [None, [0] * n, [1] * n, [(-1) ** i * (i + 2) for i in range(n)]]
    x = solve_exact(A, b)
    if all(v.denominator == 1 for v in x):
        out.append([int(v) for v in x])
    return out


def bounds(tier):
    return {"systems": "all SPD integer matrices: n=1, n=2 (diag 1..5, off -4..4), n=3, banded n=4..%d; Hilbert 2..5; three well conditioned systems of size 12 and 30 (thorough up to 120); ill-conditioned ones (Hilbert, graded) of size 3..20 (thorough 30); %d indefinite, singular or unsymmetric ones" % (6 if tier == "quick" else 9, len(OTHER)),
            "right-hand sides": "4..16 per size incl. zero", "guesses": "none, zero, two others, exact", "limits": "0, 1, 2, n, default", "tolerances": "1e-8, default, 0.5, and exactly the residual"}


def shards(tier):
    out = [{"n": 1}, {"n": 0}]
    out += [{"n": 2, "mod": 8, "k": k} for k in range(8)]
    m = 16 if tier == "quick" else 32
    out += [{"n": 3, "mod": m, "k": k} for k in range(m)]
    for n in (4, 5, 6) if tier == "quick" else (4, 5, 6, 7, 8, 9):
        out += [{"n": n, "mod": 4, "k": k} for k in range(4)]
    out += [{"n": n, "wide": True} for n in ((12, 30) if tier == "quick" else (12, 16, 17, 30, 33, 60, 120))]
    out += [{"n": -h, "hilbert": True} for h in (2, 3, 4, 5)]
    out += [{"n": 4, "edge": True}]
    out += [{"n": n, "ill": n} for n in ((3, 5, 8, 10, 12, 16, 20) if tier == "quick" else range(3, 31))]
    for s in out:
        s["tier"] = tier
    return out


def wide(n):
    """Well conditioned systems with many distinct eigenvalues."""
    yield [[4 + i % 3 if i == j else (-1 if abs(i - j) == 1 else (1 if abs(i - j) == 5 else 0)) for j in range(n)] for i in range(n)]
    yield [[(2 + i if i == j else 0) + 1 for j in range(n)] for i in range(n)]
    yield [[i + 1 if i == j else 0 for j in range(n)] for i in range(n)]


def cases(s):
    n, tier = s["n"], s["tier"]
    if s.get("wide"):
        for A in wide(n):
            for b in rhs(n, tier):
                for x0 in (None, [1] * n, [(-1) ** i * (i + 2) for i in range(n)]):
                    for tol, lim in ((None, None), (1e-8, 3 * n), (1e-8, 3), (0.5, 2), (None, 0), (None, 5)):
                        yield A, list(b), x0, tol, lim, "int" if lim == 5 else "float", 1.0, True
        return
    if s.get("hilbert"):
        h = -n
        A = [[Fraction(1, i + j + 1) for j in range(h)] for i in range(h)]
        for b in rhs(h, tier) if h <= 3 else rhs(h, tier):
            for x0 in (None, [1] * h):
                for tol, lim in ((None, None), (1e-4, 50)):
                    yield A, list(b), x0, tol, lim, "float", 1.0, True
        return
    if n == 0:
        for A in OTHER:
            for b in rhs(len(A), tier):
                for x0 in (None, [1] * len(A)):
                    for tol, lim in ((None, None), (1e-8, len(A)), (0.5, 1), (None, 0)):
                        yield A, list(b), x0, tol, lim, "float", 1.0, False
        return
    for i, A in enumerate(spd_matrices(n, tier)):
        if s.get("mod") and i % s["mod"] != s["k"]:
            continue
        for bi, b in enumerate(rhs(n, tier)):
            for gi, x0 in enumerate(guesses(A, b, n)):
                lims = [(None, None), (1e-8, n), (1e-8, n - 1), (0.5, 1), (None, 0)]
                if n > 2:
                    lims += [(0.5, 2), (1e-6, 2)]
                    if tier == "quick" and n > 3:
                        lims = lims[:5] + lims[6:]
                for li, (tol, lim) in enumerate(lims):
                    form = "int" if (i + bi + gi + li) % 2 else "float"
                    yield A, list(b), x0, tol, lim, form, 1.0, True
                if (i + bi) % 3 == 0:
                    yield A, list(b), x0, 1e-3, None, "float", 1e6, True
                    yield A, list(b), x0, 1e-13, None, "float", 1e-6, True


def run_shard(s, rec):
    if "edge" in s:
        for i in range(len(EDGE)):
            for step in (0, 1):
                rec.state(("edge", i, step))
                rec.run({"edge": [i, step]}, edge_case, i, step, rec)
                rec.trace()
        return
    if "ill" in s:
        n = s["ill"]
        for name, _ in ill(n):
            for bi in range(4):
                for x0 in (None, [1.0] * n):
                    for tol in (1e-4, None, 1e-6):
                        for lim in (None, 400, 10):
                            rec.state((n, name, bi, x0))
                            c = [n, name, bi, x0, tol, lim]
                            rec.run({"ill": c}, ill_case, *c, rec)
                            rec.trace()
        rec.sample(c)
        return
    for A, b, x0, tol, lim, form, scale, spd in cases(s):
        rec.state((A, b, x0))
        case = {"A": [[str(v) for v in r] for r in A], "b": b, "x0": x0, "tol": tol, "lim": lim, "form": form, "scale": scale, "spd": spd}
        rec.run(case, one, A, b, x0, tol, lim, form, scale, spd, rec)
        rec.trace()
    rec.sample({"A": [[str(v) for v in r] for r in A], "b": b, "x0": x0})


def replay(c, rec):
    if "edge" in c:
        return edge_case(*c["edge"], rec)
    if "ill" in c:
        return ill_case(*c["ill"], rec)
    A = [[Fraction(v) for v in r] for r in c["A"]]
    if all(v.denominator == 1 for r in A for v in r):
        A = [[int(v) for v in r] for r in A]
    one(A, c["b"], c["x0"], c["tol"], c["lim"], c["form"], c["scale"], c["spd"], rec)
