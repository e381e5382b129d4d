"""C22: shipped oracles, spaces and searches together find the true optimum (enumerated problems, complete runs)."""
import itertools
import math

import numpy as np

from .. import profit as pf
from ..core import Violation

ID = "C22"
ASSUMPTIONS = ["problems are enumerated small instances whose optimum is known in closed form (LMI), by linear programming (filters) or from below by direct search (profit)",
               "the start ellipsoid contains the optimum with a margin; best values are compared up to 1e-5 of the problem's scale (2e-4 for LMIs with the plain space, whose matrix loses precision when all cuts are parallel)",
               "the discrete profit search is judged for consistency only (its cuts are a known finding of C16)"]
ACC = {"Ell": 2e-4, "EllStable": 1e-5}
SPACES = [(c, nd) for c in ("Ell", "EllStable") for nd in (False, True)]


def space(cls, nd, par, val, xc):
    from ellalgo.ell import Ell
    from ellalgo.ell_stable import EllStable

    s = {"Ell": Ell, "EllStable": EllStable}[cls](val, np.array(xc, dtype=float))
    if nd:
        s.no_defer_trick = True
    if not par:
        s.helper.use_parallel_cut = False
    return s


def opts(m=2000, tol=1e-20):
    from ellalgo.ell_config import Options

    o = Options()
    o.max_iters, o.tolerance = m, tol
    return o


# ---- profit -------------------------------------------------------------------------------------
_REF = {}


def profit_ref(i, u):
    """(data, best profit found by direct search, its point): a lower bound on the optimum."""
    if (i, u) not in _REF:
        d = pf.problem_data(i, None if u is None else pf.UNC[u])
        f = pf.Field(d)
        x, best, h = f.argmax.copy(), f.best, 1e-2
        while h > 1e-8:
            cand = x + h * np.array([(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (1, -1), (-1, 1)])
            cand = cand[d.over(cand) <= 0]
            v = d.profit(cand) if len(cand) else np.array([-1e300])
            j = int(np.argmax(v))
            if v[j] > best:
                x, best = cand[j], float(v[j])
            else:
                h /= 2
        _REF[i, u] = (d, best, x)
    return _REF[i, u]


def profit_case(i, u, cls, nd, par, start, level, rec):
    from ellalgo.cutting_plane import cutting_plane_optim

    d, best, xo = profit_ref(i, u)
    val, xc = STARTS[start]
    if best <= 0 or float(np.sum((xo - xc) ** 2)) > 0.8 * float(np.min(val)):
        rec.outcome("optimum outside the start: not judged")
        return
    gamma = 0.0 if level is None else level * best
    x, got, it = cutting_plane_optim(d.make(), space(cls, nd, par, val, xc), gamma, opts())
    rec.step(it)
    rec.check()
    if level is not None and level > 1:
        if x is not None or got != gamma:
            raise Violation("profit problem %d/%s, asked for more than the optimum %.9g: %s, %r" % (i, u, best, x, got))
        rec.outcome("profit: refused")
        return
    if x is None:
        raise Violation("profit problem %d/%s: nothing found, optimum is %.12g" % (i, u, best))
    p, s = float(d.profit(np.asarray(x))), d.scale(np.asarray(x))
    if abs(p - float(got)) > 1e-9 * s or float(d.over(np.asarray(x))) > 1e-9:
        raise Violation("profit problem %d/%s: returned %s with value %r, its profit is %.12g" % (i, u, np.asarray(x).tolist(), float(got), p))
    if float(got) < best - 1e-5 * s:
        raise Violation("profit problem %d/%s: returned value %.12g, the optimum is at least %.12g (at %s)" % (i, u, float(got), best, xo.tolist()))
    rec.outcome("profit: optimum")


STARTS = [(100.0, [0.0, 0.0]), (40.0, [1.0, 1.0]), ([30.0, 60.0], [0.5, 2.0])]


def profitq_case(i, cls, nd, start, level, rec):
    from ellalgo.cutting_plane import cutting_plane_optim_q
    from ellalgo.oracles.profit_oracle import ProfitQOracle

    d, best, _ = profit_ref(i, None)
    val, xc = STARTS[start]
    el, v = d.arrays()
    gamma = level * max(best, 0.0)
    x, got, it = cutting_plane_optim_q(ProfitQOracle(d.params, el, v), space(cls, nd, True, val, xc), gamma, opts())
    rec.step(it)
    rec.check()
    if x is None:
        if got != gamma:
            raise Violation("discrete profit problem %d: no point but value %r" % (i, got))
        rec.outcome("discrete: none")
        return
    y = np.exp(np.asarray(x, dtype=float))
    if np.max(np.abs(y - np.round(y))) > 1e-9 or np.min(y) < 0.5:
        raise Violation("discrete profit problem %d: returned %s, not the logarithm of positive integers" % (i, y.tolist()))
    p, s = float(d.profit(np.log(np.round(y)))), d.scale(np.log(np.round(y)))
    if abs(p - float(got)) > 1e-9 * s or float(d.over(np.log(np.round(y)))) > 1e-9 or float(got) < gamma - 1e-9 * s:
        raise Violation("discrete profit problem %d: returned %s with value %r, its profit is %.12g" % (i, y.tolist(), float(got), p))
    rec.outcome("discrete: consistent")


# ---- LMI ----------------------------------------------------------------------------------------
CONG = {2: [[[1, 0], [0, 1]], [[1, 1], [0, 1]], [[2, 1], [1, 1]], [[1, 0], [-3, 1]]],
        3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [0, 1, 0], [0, -1, 1]], [[2, 0, 1], [1, 1, 0], [0, 1, 1]]]}
VARS = [[[1, 0], [0, 1]], [[1, 1], [0, 1]], [[1, -1], [1, 1]], [[2, 0], [1, 1]]]
OBJ = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-2, 1), (3, -1), (-1, -2)]
DISCS = [((0.0, 0.0), 1.0), ((1.5, -0.5), 2.0), ((-1.0, 2.0), 0.25)]


def disc_lmi(size, ctr, R, T, W):
    """F, B with B - sum F_k x_k >= 0  <=>  |W x - ctr| <= R  (congruence by T)."""
    a, b = ctr
    if size == 2:
        B = np.array([[R - a, -b], [-b, R + a]], dtype=float)
        U = [np.array([[1, 0], [0, -1]], dtype=float), np.array([[0, 1], [1, 0]], dtype=float)]
    else:
        B = np.array([[R, -a, -b], [-a, R, 0], [-b, 0, R]], dtype=float)
        U = [np.array([[0, 1, 0], [1, 0, 0], [0, 0, 0]], dtype=float), np.array([[0, 0, 1], [0, 0, 0], [1, 0, 0]], dtype=float)]
    T, W = np.array(T, dtype=float), np.array(W, dtype=float)
    # u = W x ; matrix = B + u0 U0 + u1 U1
    F = [-(W[0, k] * U[0] + W[1, k] * U[1]) for k in range(2)]
    return [T @ f @ T.T for f in F], T @ B @ T.T


class LMIProblem:
    """min c.x over one disc-shaped LMI and an optional half-plane; round-robin over the constraints."""

    def __init__(self, kind, cons, obj, half, order):
        from ellalgo.oracles.lmi0_oracle import LMI0Oracle
        from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
        from ellalgo.oracles.lmi_oracle import LMIOracle

        self.c = np.array(obj, dtype=float)
        self.kind, self.half, self.order, self.idx = kind, half, order, -1
        self.parts = []
        for F, B in cons:
            self.parts.append({"lazy": LMIOracle, "old": LMIOldOracle}[kind](F, B) if kind != "zero" else LMI0Oracle([B] + [-f for f in F]))
        self.target = None

    def update(self, t):
        self.target = float(t)

    def feas(self, k, x):
        o = self.parts[k]
        if self.kind == "zero":
            cut = o.assess_feas(np.concatenate([[1.0], x]))
            return None if cut is None else (cut[0][1:], cut[1])
        return o.assess_feas(x)

    def assess_feas(self, x):
        m = len(self.parts) + (self.half is not None) + (self.target is not None)
        for j in range(m):
            if self.order == "robin":
                self.idx = (self.idx + 1) % m
                k = self.idx
            else:
                k = j
            if k < len(self.parts):
                cut = self.feas(k, x)
                if cut is not None:
                    return cut
            elif self.half is not None and k == len(self.parts):
                g, b = self.half
                v = float(np.dot(g, x)) - b
                if v > 0:
                    return np.array(g, dtype=float), v
            else:
                v = float(self.c @ x) - self.target
                if v > 0:
                    return self.c.copy(), v
        return None

    def assess_optim(self, x, gamma):
        cut = self.assess_feas(x)
        if cut is not None:
            return cut, None
        f = float(self.c @ x)
        if f >= gamma:
            return (self.c.copy(), f - gamma), None
        return (self.c.copy(), 0.0), f


def lmi_optimum(obj, W, discs, half):
    """Exact minimum of c.x: u = W x, c.x = d.u with d = W^-T c; candidates are disc minima and pairwise boundary intersections."""
    W = np.array(W, dtype=float)
    d = np.linalg.solve(W.T, np.array(obj, dtype=float))
    cand = []
    circ = [(np.array(c), R) for c, R in discs]
    for c, R in circ:
        cand.append(c - R * d / np.linalg.norm(d))
    for (c1, R1), (c2, R2) in itertools.combinations(circ, 2):
        L = np.linalg.norm(c2 - c1)
        if L > 0 and abs(R1 - R2) <= L <= R1 + R2:
            a = (R1 * R1 - R2 * R2 + L * L) / (2 * L)
            h = math.sqrt(max(0.0, R1 * R1 - a * a))
            e = (c2 - c1) / L
            q = np.array([-e[1], e[0]])
            cand += [c1 + a * e + h * q, c1 + a * e - h * q]
    if half is not None:
        g = np.linalg.solve(W.T, np.array(half[0], dtype=float))
        for c, R in circ:
            t = (half[1] - g @ c) / np.linalg.norm(g)
            if abs(t) <= R:
                n = g / np.linalg.norm(g)
                q = np.array([-n[1], n[0]])
                h = math.sqrt(R * R - t * t)
                cand += [c + t * n + h * q, c + t * n - h * q]
    best = None
    for u in cand:
        if all(np.linalg.norm(u - c) <= R + 1e-9 for c, R in circ) and (half is None or g @ u <= half[1] + 1e-9):
            v = float(d @ u)
            best = v if best is None else min(best, v)
    return best


def lmi_case(c, rec):
    from ellalgo.cutting_plane import BSearchAdaptor, bsearch, cutting_plane_feas, cutting_plane_optim

    W, T = VARS[c["w"]], CONG[c["size"]][c["t"]]
    discs = [DISCS[i] for i in c["discs"]]
    cons = [disc_lmi(c["size"], d[0], d[1], T, W) for d in discs]
    obj, half = OBJ[c["obj"]], c["half"]
    want = lmi_optimum(obj, W, discs, half)
    prob = LMIProblem(c["kind"], cons, obj, half, c["order"])
    sp = space(c["cls"], c["nd"], c["par"], c["val"], [0.3, -0.2])
    Wm = np.array(W, dtype=float)

    def inside(x, tol):
        u = Wm @ x
        return all(np.linalg.norm(u - np.array(d[0])) <= d[1] + tol for d in discs) and (half is None or float(np.dot(half[0], x)) <= half[1] + tol)

    what = "LMI problem %s" % (c,)
    if c["search"] == "feas":
        x, it = cutting_plane_feas(prob, sp, opts())
        rec.step(it)
        rec.check()
        if (x is None) != (want is None):
            raise Violation("%s: feasibility search returns %s, the optimum over the set is %s" % (what, x, want))
        if x is not None and not inside(np.asarray(x), 1e-9):
            raise Violation("%s: %s is not feasible" % (what, np.asarray(x).tolist()))
        rec.outcome("lmi: feasible" if x is not None else "lmi: empty")
        return
    if c["search"] == "optim":
        x, v, it = cutting_plane_optim(prob, sp, 1e6, opts())
        rec.step(it)
        rec.check()
        if want is None:
            if x is not None or v != 1e6:
                raise Violation("%s: empty set, but %s, %r" % (what, x, v))
            rec.outcome("lmi: empty")
            return
        if x is None:
            raise Violation("%s: nothing found, optimum %.9g" % (what, want))
        x = np.asarray(x)
        if not inside(x, 1e-9) or abs(float(np.dot(obj, x)) - v) > 1e-9:
            raise Violation("%s: returned %s with value %r, feasible %s" % (what, x.tolist(), v, inside(x, 1e-9)))
        if not -1e-7 <= v - want <= ACC[c["cls"]]:
            raise Violation("%s: value %.12g, optimum %.12g" % (what, v, want))
        rec.outcome("lmi: optimum")
        return
    # binary search for the smallest level with a feasible point
    if want is None:
        return
    ad = BSearchAdaptor(prob, sp, opts())
    tol = 1e-4
    v, it = bsearch(ad, (want - 3.0, want + 7.0), opts(60, tol))
    rec.step(it)
    rec.check()
    if not want - 1e-9 <= v <= want + 2 * tol + ACC[c["cls"]]:
        raise Violation("%s: binary search returns %.12g, threshold %.12g" % (what, v, want))
    x = np.asarray(ad.x_best)
    if not inside(x, 1e-9) or float(np.dot(obj, x)) > v + 1e-9:
        raise Violation("%s: best point %s does not belong to %.12g" % (what, x.tolist(), v))
    rec.outcome("lmi: threshold")


# ---- LMIs in more variables ------------------------------------------------------------------------
def ball_data(c):
    """A ball |W x - ctr| <= R as an arrow-shaped LMI of size d+1 (congruence by T), an objective and an optional half-space."""
    d = c["d"]
    ctr = np.array([0.4 * (-1.0) ** i * (1 + i % 3) for i in range(d)])
    W, T = np.eye(d), np.eye(d + 1)
    if c["w"]:
        W += np.diag([0.5] * (d - 1), 1) - np.diag([0.25] * (d - 2), -2)
    if c["t"]:
        T += np.diag([-0.5] * d, -1) + np.diag([0.25] * (d - 1), 2)
    if c["t"] == 2:
        T = T[::-1] * 3.0
    R = c["R"]
    B = R * np.eye(d + 1)
    B[0, 1:] = B[1:, 0] = -ctr
    F = []
    for k in range(d):
        M = np.zeros((d + 1, d + 1))
        M[0, 1:] = M[1:, 0] = W[:, k]
        F.append(-M)
    obj = {"one": [1.0] + [0.0] * (d - 1), "last": [0.0] * (d - 1) + [-1.0], "all": [1.0 + i % 2 for i in range(d)], "alt": [(-1.0) ** i for i in range(d)]}[c["obj"]]
    half = {None: None, "cut": ([1.0] + [0.5] * (d - 1), None), "miss": ([0.0] * (d - 1) + [1.0], None)}[c["half"]]
    dd = np.linalg.solve(W.T, np.array(obj))
    u = ctr - R * dd / np.linalg.norm(dd)
    if half is not None:
        g = np.linalg.solve(W.T, np.array(half[0]))
        # the half-space g.u <= b: through a point between centre and optimum, or beyond the ball
        nrm = np.linalg.norm(g)
        if c["half"] == "miss":
            half = (half[0], float(g @ ctr - (R + 0.5) * nrm))
            return [T @ f @ T.T for f in F], T @ B @ T.T, obj, half, None, W, ctr, None
        t = 0.5 * (g @ (u - ctr)) / nrm - 0.2 * R
        half = (half[0], float(g @ ctr + t * nrm))
        if g @ u > half[1]:
            nn = g / nrm
            q = dd - (dd @ nn) * nn
            u = ctr + t * nn - math.sqrt(R * R - t * t) * q / np.linalg.norm(q)
    return [T @ f @ T.T for f in F], T @ B @ T.T, obj, half, float(dd @ u), W, ctr, np.linalg.solve(W, u)


def ball_case(c, rec):
    from ellalgo.cutting_plane import cutting_plane_feas, cutting_plane_optim

    F, B, obj, half, want, W, ctr, xo = ball_data(c)
    d, what = c["d"], "LMI problem %s" % (c,)
    prob = LMIProblem(c["kind"], [(F, B)], obj, half, c["order"])
    sp = space(c["cls"], c["nd"], True, 400.0 if c["cls"] == "Ell" else [300.0 + 20.0 * (i % 3) for i in range(d)], [0.1 * (i % 4) for i in range(d)])

    def inside(x, tol):
        return np.linalg.norm(W @ x - ctr) <= c["R"] + tol and (half is None or float(np.dot(half[0], x)) <= half[1] + tol)

    if c["search"] == "feas":
        x, it = cutting_plane_feas(prob, sp, opts(8000))
        rec.step(it)
        rec.check()
        if (x is None) != (want is None):
            raise Violation("%s: feasibility search returns %s after %d iterations, the optimum over the set is %s" % (what, x, it, want))
        if x is not None and not inside(np.asarray(x), 1e-9):
            raise Violation("%s: %s is not feasible" % (what, np.asarray(x).tolist()))
        rec.outcome("ball: feasible" if x is not None else "ball: empty")
        return
    x, v, it = cutting_plane_optim(prob, sp, 1e6, opts(8000, 1e-11))
    rec.step(it)
    rec.check()
    if want is None:
        if x is not None or v != 1e6:
            raise Violation("%s: empty set, but %s, %r" % (what, x, v))
        rec.outcome("ball: empty")
        return
    if x is None:
        raise Violation("%s: nothing found, optimum %.9g" % (what, want))
    x = np.asarray(x)
    if not inside(x, 1e-9) or abs(float(np.dot(obj, x)) - v) > 1e-9:
        raise Violation("%s: returned %s with value %r, feasible %s" % (what, x.tolist(), v, inside(x, 1e-9)))
    if not -1e-7 <= v - want <= 1e-4:
        raise Violation("%s: value %.12g, optimum %.12g (%d iterations)" % (what, v, want, it))
    rec.outcome("ball: optimum")


def ball_cases(d, kind, tier):
    n = 0
    for w in (0, 1):
        for t in (0, 1, 2):
            for R in (1.0, 2.5):
                for obj in ("one", "last", "all", "alt"):
                    for half in (None, "cut", "miss"):
                        for search in ("feas", "optim"):
                            n += 1
                            for j, (cls, nd) in enumerate(SPACES):
                                if (tier == "quick" or d > 6) and j != n % 4:
                                    continue
                                yield dict(d=d, w=w, t=t, R=R, obj=obj, half=half, search=search, kind=kind, order="robin" if (n // 2) % 2 else "first", cls=cls, nd=nd)


# ---- filters ------------------------------------------------------------------------------------
def low_case(name, cls, nd, par, val, tight, rec):
    from ellalgo.cutting_plane import cutting_plane_optim
    from . import c17

    spec = c17.get(name)
    want = low_opt(spec)
    x, v, it = cutting_plane_optim(spec.make(), space(cls, nd, par, val, [0.0] * spec.n), float(spec.sp), opts(40000, 1e-20 if tight else 1e-10))
    rec.step(it)
    rec.check()
    if want is None or want > spec.sp + 1e-7:
        if x is not None or v != spec.sp:
            raise Violation("filter %s: specification cannot be met, but %s, %r" % (name, x, v))
        rec.outcome("filter: refused")
        return
    if x is None:
        raise Violation("filter %s: nothing found although the specification can be met (%.9g)" % (name, want))
    x = np.asarray(x)
    if spec.margin(x, float(v)) > 1e-9:
        raise Violation("filter %s: returned filter misses the specification at level %.9g by %.3g" % (name, v, spec.margin(x, float(v))))
    if abs(float(np.max(spec.R[spec.sb] @ x)) - v) > 1e-9:
        raise Violation("filter %s: reported %.12g, stopband maximum %.12g" % (name, v, float(np.max(spec.R[spec.sb] @ x))))
    # a stop at half-width w leaves better filters with inradius at most w: homothety gives the accuracy
    _, depth = c17.base_points(spec)
    acc = 1e-5 if tight else 1e-6 + (spec.sp - want) * 1e-5 * 2 * math.sqrt(spec.n) / depth
    if not -1e-7 <= v - want <= acc:
        raise Violation("filter %s: level %.12g reached, %.12g is possible" % (name, v, want))
    rec.outcome("filter: optimum")


_LOW = {}


def low_opt(spec):
    if spec.name not in _LOW:
        from scipy.optimize import linprog

        n = spec.n
        A, b = spec.cons(0.0)
        A = np.c_[A, np.zeros(len(b))]
        k = 2 * len(spec.pb)
        A[k:k + len(spec.sb), -1] = -1.0
        r = linprog(np.r_[np.zeros(n), 1.0], A_ub=A, b_ub=b, bounds=[(None, None)] * n + [(None, None)], method="highs")
        _LOW[spec.name] = float(r.fun) if r.status == 0 else None
    return _LOW[spec.name]


HALF = [None, ([1.0, 0.5], 0.2), ([0.0, -1.0], -0.5)]
TIGHT = ("a2", "c2", "a3", "b3", "a4", "a5", "i3", "w6", "a7")
LOOSE = TIGHT + ("b2", "t3", "t5", "f4", "l12", "l16", "f20")


def lmi_cases(size, w, tier):
    n = 0
    for t in range(len(CONG[size])):
        for discs in ([0], [1], [2], [0, 1], [1, 2], [0, 2]):
            for obj in ((0, 5, 7) if tier == "quick" else range(8)):
                for half in HALF:
                    for search in ("feas", "optim", "bs"):
                        for kind in ("lazy", "old", "zero"):
                            n += 1
                            for j, (cls, nd) in enumerate(SPACES):
                                if tier == "quick" and j != n % 4:
                                    continue
                                yield dict(size=size, w=w, t=t, discs=discs, obj=obj, half=half, search=search, kind=kind, order="robin" if (n // 3 + j) % 2 else "first",
                                           cls=cls, nd=nd, par=True, val=400.0 if (n + j) % 5 else [500.0, 300.0])


def bounds(tier):
    return {"profit": "8 problems x all usable ones of 10 uncertainty sets x 4 space variants x 3 starts x 4 levels", "discrete profit": "8 problems x 4 space variants x 3 starts x 4 levels (consistency)",
            "LMI": "disc-shaped constraints of size 2 and 3 under 4+3 congruences and 4 variable changes, 1-2 constraints, 3 half-planes, %s objectives, 3 oracle kinds, feasibility / optimization / binary search" % (3 if tier == "quick" else 8),
            "LMIs in more variables": "balls in %s variables as arrow matrices, 3 congruences, 2 variable changes, 2 radii, 4 objectives, half-space cutting / missing / absent" % (BALL[tier],), "filters": "16 specifications x 4 space variants x parallel on/off x %d starts" % (2 if tier == "quick" else 4)}


def shards(tier):
    sh = [{"kind": "l", "size": z, "w": w, "tier": tier} for z in (3, 2) for w in range(4)]
    sh += [{"kind": "p", "i": i, "tier": tier} for i in range(8)]
    sh += [{"kind": "f", "name": m, "tier": tier} for m in LOOSE[::-1]]
    sh = [{"kind": "b", "d": d, "o": o, "tier": tier} for d in BALL[tier] for o in ("lazy", "old", "zero")] + sh
    return sh


BALL = {"quick": (8, 4, 3), "thorough": (12, 8, 6, 4, 3)}


def run_shard(s, rec):
    if s["kind"] == "b":
        for c in ball_cases(s["d"], s["o"], s["tier"]):
            rec.state(c)
            rec.run({"ball": c}, ball_case, c, rec)
            rec.trace()
        rec.sample(c)
        return
    if s["kind"] == "l":
        for c in lmi_cases(s["size"], s["w"], s["tier"]):
            rec.state(c)
            rec.run({"lmi": c}, lmi_case, c, rec)
            rec.trace()
        rec.sample(c)
    elif s["kind"] == "p":
        for u in [None] + [u for u in range(len(pf.UNC)) if pf.usable(s["i"], pf.UNC[u])]:
            for cls, nd in SPACES:
                for st in range(3):
                    for lv in (None, 0.5, 0.95, 1.2) if s["tier"] == "quick" else (None, 0.1, 0.5, 0.9, 0.95, 0.999, 1.001, 1.2, 2.0):
                        rec.state((s["i"], u, cls, nd, st, lv))
                        rec.run({"profit": [s["i"], u, cls, nd, True, st, lv]}, profit_case, s["i"], u, cls, nd, True, st, lv, rec)
                        rec.trace()
        for cls, nd in SPACES:
            for st in range(3):
                for lv in (0.0, 0.3, 0.9, 1.1):
                    rec.state((s["i"], "q", cls, nd, st, lv))
                    rec.run({"profitq": [s["i"], cls, nd, st, lv]}, profitq_case, s["i"], cls, nd, st, lv, rec)
                    rec.trace()
    else:
        for cls, nd in SPACES:
            for par in (True, False):
                for val in (4.0, 50.0) if s["tier"] == "quick" else (4.0, 10.0, 50.0, 100.0):
                    for tight in (False, True):
                        if tight and s["name"] not in TIGHT:
                            continue
                        rec.state((s["name"], cls, nd, par, val, tight))
                        rec.run({"low": [s["name"], cls, nd, par, val, tight]}, low_case, s["name"], cls, nd, par, val, tight, rec)
                        rec.trace()


def replay(c, rec):
    if "lmi" in c:
        lmi_case(c["lmi"], rec)
    elif "profit" in c:
        profit_case(*c["profit"], rec)
    elif "ball" in c:
        ball_case(c["ball"], rec)
    elif "profitq" in c:
        profitq_case(*c["profitq"], rec)
    else:
        low_case(*c["low"], rec)
