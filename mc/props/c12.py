"""C12: enumerated convex problems are solved within the theoretical number of iterations."""
import itertools
import math

import numpy as np

from .. import ellspace as es
from .. import script as sc
from ..script import need

ID = "C12"
ASSUMPTIONS = ["polytopes with enumerated facet normals around a planted ball, plus ball-shaped and empty sets",
               "iteration bounds and accuracies are the rigorous consequences of the volume argument"]
R0 = 4.0       # start ball radius (radius^2 is passed to the space)


def normals(n, which):
    """A list of facet normals."""
    if n == 2:
        ring = [(1, 0), (1, 1), (0, 1), (-1, 2), (-1, 0), (-2, -1), (0, -1), (2, -3)]
        return [np.array(ring[i], dtype=float) for i in which]
    gens = []
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1
        gens.append(e)
    gens.append(-np.ones(n))
    gens.append(np.array([(-1.0) ** i * (1 + i % 3) for i in range(n)]))
    gens.append(np.array([0.5 if i % 2 else -2.0 for i in range(n)]))
    gens += [-g for g in gens[:n]]
    return [gens[i] for i in which]


class Poly:
    """{x : A x <= b} containing the ball (c, r); answers with violated constraints in a fixed order."""

    def __init__(self, prob):
        self.n = n = prob["n"]
        self.A = normals(n, prob["which"])
        self.c = np.array(prob["c"], dtype=float)
        r = prob["r"]
        if prob.get("empty"):
            self.b = []
            s = prob["r"]
            self.A = [self.A[0], -self.A[0]] + self.A[1:]
            self.b = [float(self.A[0] @ self.c) - s, -float(self.A[0] @ self.c) - s]
            self.b += [float(a @ self.c) + 1.0 for a in self.A[2:]]
        else:
            self.b = [float(a @ self.c) + (r + (0.5 * r if i % 3 == 2 else 0.0)) * float(np.linalg.norm(a)) for i, a in enumerate(self.A)]
        self.order = prob["order"]
        self.style = prob["style"]
        self.idx = 0
        self.calls = 0

    def violated(self, x):
        m = len(self.A)
        v = [float(a @ x) - b for a, b in zip(self.A, self.b)]
        if self.order == "first":
            seq = range(m)
        elif self.order == "last":
            seq = range(m - 1, -1, -1)
        elif self.order == "most":
            seq = sorted(range(m), key=lambda i: -v[i] / np.linalg.norm(self.A[i]))
        elif self.order == "least":
            seq = sorted(range(m), key=lambda i: v[i] / np.linalg.norm(self.A[i]))
        else:                                # round robin
            seq = [(self.idx + k) % m for k in range(m)]
        for i in seq:
            if v[i] > 0:
                self.idx = (i + 1) % m
                return i, v[i]
        return None

    def cut(self, i, v, x):
        a = self.A[i]
        if self.style == "central":
            return a.copy(), 0.0
        if self.style == "parallel":
            # a second plane that holds for every feasible point: a.y >= min over the planted box (found from an opposite facet)
            for j, o in enumerate(self.A):
                if j != i and np.array_equal(o, -a):
                    lo = -self.b[j]          # a.y >= lo
                    return a.copy(), [v, float(a @ x) - lo]
        return a.copy(), v

    def assess_feas(self, x):
        self.calls += 1
        x = np.asarray(x, dtype=float)
        r = self.violated(x)
        if r is None:
            return None
        return self.cut(r[0], r[1], x)

    def inside(self, x, tol=0.0):
        return all(float(a @ x) <= b + tol for a, b in zip(self.A, self.b))

    def assess_optim(self, x, gamma):
        x = np.asarray(x, dtype=float)
        cut = self.assess_feas(x)
        if cut is not None:
            return cut, None
        f = float(self.obj @ x)
        if f >= gamma:
            return (self.obj.copy(), f - gamma), None
        return (self.obj.copy(), 0.0), f

    def optimum(self, obj):
        """LP optimum by vertex enumeration with dual certificate (n > 6: LP solver); None if unbounded."""
        best = None
        if self.n > 6:
            from scipy.optimize import linprog

            r = linprog(obj, A_ub=np.array(self.A), b_ub=self.b, bounds=[(None, None)] * self.n, method="highs")
            return (float(r.fun), np.array(r.x)) if r.status == 0 else None
        for rows in itertools.combinations(range(len(self.A)), self.n):
            M = np.array([self.A[i] for i in rows])
            if abs(np.linalg.det(M)) < 1e-9:
                continue
            v = np.linalg.solve(M, [self.b[i] for i in rows])
            if self.inside(v, 1e-9):
                if np.all(np.linalg.solve(M.T, -obj) >= -1e-9):      # dual feasible: optimal
                    best = (float(obj @ v), v)
        return best


def make_space(prob):
    return es.make({"cls": prob["cls"], "n": prob["n"], "init": prob["init"], "nodefer": prob["nodefer"], "par": prob.get("par", True), "xc": prob.get("xc", [0.0] * prob["n"])})


def log_vol0(prob):
    return 0.5 * math.log(np.linalg.det(es.init_P(prob)))


def inside_start(prob, c, r):
    """Ball (c, r) inside the start ellipsoid (sufficient test)."""
    P = es.init_P(prob)
    c = c - np.array(prob.get("xc", [0.0] * len(c)))
    return math.sqrt(float(c @ np.linalg.solve(P, c))) + r / math.sqrt(np.linalg.eigvalsh(P)[0]) <= 1.0


def feas(prob, rec):
    from ellalgo.cutting_plane import cutting_plane_feas

    orc, space = Poly(prob), make_space(prob)
    n = prob["n"]
    if prob.get("empty"):
        x, num = cutting_plane_feas(orc, space, sc.opts(2000, 1e-20))
        need(x is None, "empty set, but the search returned %s" % (x,))
        need(num < 2000 or prob["style"] == "central", "empty set with a gap, but the search did not stop within 2000 iterations")
        rec.step(orc.calls)
        rec.check()
        rec.outcome("empty")
        return
    if not inside_start(prob, orc.c, prob["r"]):
        rec.outcome("skipped")
        return
    bound = 2 * (n + 1) * (log_vol0(prob) - n * math.log(prob["r"]))
    # the ball keeps the width along every gradient a above r|a|, so this tolerance must not stop the search
    tol = 0.9 * (prob["r"] * min(float(np.linalg.norm(a)) for a in orc.A)) ** 2 if prob.get("tight") else 1e-20
    x, num = cutting_plane_feas(orc, space, sc.opts(max(4000, int(bound) + 2), tol))
    rec.step(orc.calls)
    rec.check()
    need(x is not None, "gave up after %d iterations although the set contains a ball of radius %g" % (num, prob["r"]))
    need(orc.inside(np.asarray(x)), "returned point %s is not feasible" % (x,))
    need(num <= bound + 1e-6, "needed %d iterations, guaranteed bound is %.1f" % (num, bound))
    rec.outcome("feasible %d" % min(num // 10 * 10, 200))
    rec.state((sorted((k, str(v)) for k, v in prob.items()), num))


def optim(prob, rec):
    from ellalgo.cutting_plane import cutting_plane_optim

    orc, space = Poly(prob), make_space(prob)
    n = prob["n"]
    orc.obj = np.array(prob["obj"], dtype=float)
    best = orc.optimum(orc.obj)
    if best is None or not inside_start(prob, orc.c, prob["r"]):
        rec.outcome("skipped")
        return
    fopt, xopt = best
    # the optimum must lie well inside the start ellipsoid, and the problem be bounded there
    P = es.init_P(prob)
    xopt = xopt - np.array(prob.get("xc", [0.0] * n))
    if float(xopt @ np.linalg.solve(P, xopt)) > 0.9:
        rec.outcome("skipped")
        return
    tol = prob["tol"]
    width = min([np.linalg.norm(a) for a in orc.A] + [np.linalg.norm(orc.obj)])
    lam = min(1.0, 1.001 * math.sqrt(tol) / (prob["r"] * width))
    rng = float(orc.obj @ orc.c) + prob["r"] * float(np.linalg.norm(orc.obj)) - fopt
    eps = lam * rng + 1e-9
    bound = 2 * (n + 1) * (log_vol0(prob) - n * math.log(lam * prob["r"])) + 1
    x, g, num = cutting_plane_optim(orc, space, prob["gamma"], sc.opts(int(bound) + 50, tol))
    rec.step(orc.calls)
    rec.check()
    need(x is not None, "no solution found after %d iterations" % num)
    x = np.asarray(x)
    need(orc.inside(x, 1e-9), "returned point %s is not feasible" % (x,))
    need(abs(float(orc.obj @ x) - g) <= 1e-9, "value %r does not belong to the point %s" % (g, x))
    need(g >= fopt - 1e-7, "value %r below the true optimum %r" % (g, fopt))
    need(g - fopt <= eps, "value %r, true optimum %r: error %.3g exceeds the guaranteed accuracy %.3g" % (g, fopt, g - fopt, eps))
    need(num <= bound, "needed %d iterations, guaranteed bound is %.1f" % (num, bound))
    rec.outcome("optimum %d" % min(num // 10 * 10, 300))
    rec.state((sorted((k, str(v)) for k, v in prob.items()), num))


class Balls:
    """Intersection of balls |x - m_i| <= rho_i around a planted ball; objective |x - p|^2 (convex, nonlinear)."""

    def __init__(self, prob):
        n = prob["n"]
        self.c = np.array(prob["c"], dtype=float)
        r = prob["r"]
        self.M, self.rho = [], []
        for d in normals(n, prob["which"]):
            d = d / np.linalg.norm(d)
            off = prob["off"]
            self.M.append(self.c + off * d)
            self.rho.append(off + r)
        self.calls = 0
        self.i = 0

    def assess_feas(self, x):
        self.calls += 1
        x = np.asarray(x, dtype=float)
        m = len(self.M)
        for k in range(m):
            j = (self.i + k) % m
            d = x - self.M[j]
            v = float(d @ d) - self.rho[j] ** 2
            if v > 0:
                self.i = (j + 1) % m
                return 2 * d, v
        return None


def balls(prob, rec):
    from ellalgo.cutting_plane import cutting_plane_feas

    orc, space = Balls(prob), make_space(prob)
    n = prob["n"]
    if not inside_start(prob, orc.c, prob["r"]):
        return
    bound = 2 * (n + 1) * (log_vol0(prob) - n * math.log(prob["r"]))
    x, num = cutting_plane_feas(orc, space, sc.opts(4000, 1e-20))
    rec.step(orc.calls)
    rec.check()
    need(x is not None, "gave up after %d iterations although the set contains a ball of radius %g" % (num, prob["r"]))
    need(all(np.linalg.norm(np.asarray(x) - m) <= rho + 1e-12 for m, rho in zip(orc.M, orc.rho)), "returned point is not feasible")
    need(num <= bound + 1e-6, "needed %d iterations, guaranteed bound is %.1f" % (num, bound))
    rec.outcome("balls %d" % min(num // 10 * 10, 200))
    rec.state((sorted((k, str(v)) for k, v in prob.items()), num))


SPACES = [("Ell", False), ("Ell", True), ("EllStable", False), ("EllStable", True)]
ORDERS = ["first", "last", "most", "least", "robin"]
STYLES = ["deep", "central", "parallel"]


def inits(n):
    return [["scalar", R0 * R0], ["diag", [R0 * R0 * (1.0 + 0.5 * (i % 3)) for i in range(n)]]]


def facets(n, tier):
    if n == 2:
        out = [list(c) for c in itertools.combinations(range(8), 3)] + [[0, 2, 4, 6], [1, 3, 5, 7, 0], list(range(8))]
        return out if tier == "thorough" else out[::3] + out[-3:]
    m = 2 * n + 3
    out = [list(range(n + 1)), list(range(n)) + list(range(n + 3, m)), list(range(m)), [0, n, n + 1, n + 2], [n + 2, n + 1, 1, 0]]
    return out


def centres(n, tier):
    base = [[0.0] * n, [1.0] + [0.3] * (n - 1), [(-1.0) ** i * 0.8 for i in range(n)], [0.0] * (n - 1) + [-2.5]]
    return base


def problems(n, tier, cls, nodefer):
    rs = (0.5, 0.05) if tier == "quick" else (0.8, 0.3, 0.05, 0.005)
    for init in inits(n):
        for which in facets(n, tier):
            for c in centres(n, tier):
                for order in ORDERS:
                    for style in STYLES:
                        for r in rs:
                            yield {"n": n, "cls": cls, "nodefer": nodefer, "init": init, "which": which, "c": c, "r": r, "order": order, "style": style}


def wide(n, tier, cls, nodefer):
    """Larger dimensions, start centres away from the origin, parallel cuts switched off."""
    small = n < 8
    for which in facets(n, tier)[1:3] if not small else facets(n, tier)[::2]:
        for c in centres(n, tier)[(0 if n < 20 else 1):(4 if n < 20 else 2)]:
            for xc in ([0.0] * n, [0.7 * (-1.0) ** i for i in range(n)]) if n < 20 or small else ([0.1 * (i % 5) for i in range(n)],):
                for par in (True, False):
                    for order in ("robin", "most") if not small else ORDERS:
                        for style in STYLES if par else ("parallel",):
                            for r in (0.5, 0.05) if n < 20 else (0.5,):
                                yield {"n": n, "cls": cls, "nodefer": nodefer, "init": inits(n)[1], "which": which, "c": c, "xc": xc, "par": par, "r": r, "order": order, "style": style}


WIDE = {"quick": [2, 3, 10, 20], "thorough": [2, 3, 10, 16, 20, 32]}


def bounds(tier):
    return {"start centres off the origin, parallel cuts on/off": "dimensions %s" % WIDE[tier], "dimensions": DIM[tier], "orders": ORDERS, "styles": STYLES, "spaces": SPACES}


DIM = {"quick": [2, 3, 5], "thorough": [2, 3, 4, 5, 6, 8]}


def shards(tier):
    sh = []
    for n in DIM[tier]:
        for cls, nd in SPACES:
            for part in range(8):
                sh.append({"n": n, "cls": cls, "nodefer": nd, "part": part, "of": 8})
    for n in WIDE[tier]:
        for cls, nd in SPACES:
            for part in range(8):
                sh.append({"n": n, "cls": cls, "nodefer": nd, "part": part, "of": 8, "wide": True})
    return sorted(sh, key=lambda s: -s["n"])


def run_shard(shard, rec):
    n = shard["n"]
    k = 0
    for prob in wide(n, rec.tier, shard["cls"], shard["nodefer"]) if shard.get("wide") else ():
        k += 1
        if k % shard["of"] != shard["part"]:
            continue
        p = dict(prob, obj=[1.0] + [0.5] * (n - 1), tol=1e-9 if n < 8 else 1e-4, gamma=1e3)
        for q in ({"feas": prob}, {"feas": dict(prob, tight=True)}, {"feas": dict(prob, empty=True)}) + (({"optim": p},) if n < 20 else ()):
            rec.run(q, replay, q, rec)
            rec.trace()
        rec.sample(prob)
    for prob in () if shard.get("wide") else problems(n, rec.tier, shard["cls"], shard["nodefer"]):
        k += 1
        if k % shard["of"] != shard["part"]:
            continue
        rec.run({"feas": prob}, feas, prob, rec)
        rec.trace()
        p = dict(prob, tight=True)
        rec.run({"feas": p}, feas, p, rec)
        rec.trace()
        if prob["order"] in ("first", "most"):
            for big in (1e6, 1e10):
                # the same problem on another scale
                s = big ** 0.5 / R0
                p = dict(prob, tight=True, init=["scalar", big], c=[v * s for v in prob["c"]], r=prob["r"] * s)
                rec.run({"feas": p}, feas, p, rec)
                rec.trace()
        if prob["r"] == 0.05 and prob["init"][0] == "scalar" and prob["order"] in ("robin", "most"):
            for r in (1e-4, 1e-7):
                # small sets: long searches
                p = dict(prob, r=r)
                rec.run({"feas": p}, feas, p, rec)
                rec.trace()
        if k % 2:
            p = dict(prob, empty=True)
            rec.run({"feas": p}, feas, p, rec)
            rec.trace()
        for obj in ([1.0] + [0.5] * (n - 1), [-1.0, 2.0] + [0.0] * (n - 2)):
            if prob["style"] == "central" and obj[0] < 0:
                continue
            p = dict(prob, obj=obj, tol=1e-9, gamma=1e3)
            rec.run({"optim": p}, optim, p, rec)
            rec.trace()
        if prob["style"] == "deep" and prob["order"] == "first":
            for off in (0.5, 3.0):
                p = dict(prob, off=off)
                rec.run({"balls": p}, balls, p, rec)
                rec.trace()
        rec.sample(prob)


def replay(case, rec):
    (k, prob), = case.items()
    {"feas": feas, "optim": optim, "balls": balls}[k](prob, rec)
