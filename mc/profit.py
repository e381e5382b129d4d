"""Reference for the profit oracles (C15, C16): profits and worst cases computed directly from the problem data."""
import itertools
import math

import numpy as np

from .core import Violation

EPS = 1e-9


class Data:
    def __init__(self, params, el, v, unc=None, ints=False):
        self.params, self.el, self.v, self.unc, self.ints = params, el, v, unc, ints
        p, A, k = params
        e = unc or (0.0,) * 5
        # vertices of the uncertainty box: profit is linear in prices and, in log space, monotone in each elasticity
        self.vert = []
        for s1, s2, s3, s5, s6 in itertools.product((-1, 1), repeat=5):
            t = (el[0] + s1 * e[0], el[1] + s2 * e[1], p + s3 * e[2], v[0] + s5 * e[4], v[1] + s6 * e[4])
            if t not in self.vert:
                self.vert.append(t)
        self.k = k - e[3]
        self.A = A
        # the maximiser without the limit: v_i y_i = el_i * revenue
        self.free = None
        if min(el) > 0 and sum(el) < 1:
            M = np.eye(2) - np.array([el, el], dtype=float)
            self.free = np.linalg.solve(M, [math.log(el[i] * p * A / v[i]) for i in (0, 1)])

    def arrays(self):
        if self.ints:
            return np.array(self.el, dtype=int), np.array(self.v, dtype=int)
        return np.array(self.el, dtype=float), np.array(self.v, dtype=float)

    def make(self):
        from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitRbOracle

        el, v = self.arrays()
        if self.unc is None:
            return ProfitOracle(self.params, el, v)
        return ProfitRbOracle(self.params, el, v, self.unc)

    def profit(self, X):
        """Worst-case profit at log-points X (array of shape (..., 2))."""
        X = np.asarray(X, dtype=float)
        y0, y1 = np.exp(X[..., 0]), np.exp(X[..., 1])
        best = None
        for a, b, p, v0, v1 in self.vert:
            r = p * self.A * np.exp(a * X[..., 0] + b * X[..., 1]) - v0 * y0 - v1 * y1
            best = r if best is None else np.minimum(best, r)
        return best

    def scale(self, X):
        X = np.asarray(X, dtype=float)
        y = np.exp(X)
        return max(max(p * self.A * math.exp(a * X[0] + b * X[1]), v0 * y[0] + v1 * y[1]) for a, b, p, v0, v1 in self.vert)

    def over(self, X):
        """Violation of the input limit in log space."""
        return np.asarray(X, dtype=float)[..., 0] - math.log(self.k)

    def margin(self, x, gamma):
        """log(gamma + cost) - log(revenue) in the worst case: positive when the profit misses gamma."""
        y = np.exp(np.asarray(x, dtype=float))
        return max(math.log(gamma + v0 * y[0] + v1 * y[1]) - math.log(p * self.A) - a * x[0] - b * x[1] for a, b, p, v0, v1 in self.vert)


GRID = np.array(list(itertools.product(np.linspace(-3.0, 6.0, 37), repeat=2)))
ANG = [(math.cos(t), math.sin(t)) for t in np.arange(16) * (math.pi / 8)]
LOCAL = np.array([(r * c, r * s) for r in (1e-3, 0.02, 0.15, 0.6, 1.5, 4.0) for c, s in ANG])


class Field:
    """All enumerated points with their (worst-case) profit, respecting the limit."""

    def __init__(self, data):
        self.data = data
        far = data.free is not None and np.max(np.abs(data.free)) > 7.0
        self.shift = np.round(data.free) - 1.5 if far else np.zeros(2)     # everything is enumerated around the optimum
        G = np.concatenate([GRID + self.shift, np.stack([np.full(37, math.log(data.k)), np.linspace(-3.0, 6.0, 37) + self.shift[1]], axis=1)])
        ok = data.over(G) <= 0
        self.pts = G[ok]
        self.val = data.profit(self.pts)
        i = int(np.argmax(self.val))
        self.best = float(self.val[i])
        # refine the maximiser so that levels just below the optimum have better points
        x, h = self.pts[i].copy(), 0.25
        extra = []
        for _ in range(60):
            cand = x + h * np.array([(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (1, -1), (-1, 1)])
            cand = cand[data.over(cand) <= 0]
            if len(cand):
                p = data.profit(cand)
                j = int(np.argmax(p))
                extra.append(cand)
                if p[j] > self.best:
                    x, self.best = cand[j], float(p[j])
                    continue
            h /= 2
            if h < 1e-3:
                break
        self.argmax = x
        E = np.concatenate(extra + [x[None]])
        self.pts = np.concatenate([self.pts, E])
        self.val = np.concatenate([self.val, data.profit(E)])

    def check_cut(self, x, g, b, gamma, what):
        """Raise if the cut excludes an enumerated point that respects the limit and beats gamma."""
        w = self.excluded(x, g, b, gamma)
        if w is not None:
            raise Violation("%s: cut %s, %r at %s excludes %s with profit %.9g > %.9g" % (
                what, np.asarray(g).tolist(), b, np.asarray(x).tolist(), w[0], w[1], gamma))

    def excluded(self, x, g, b, gamma):
        x = np.asarray(x, dtype=float)
        L = x + LOCAL
        L = L[self.data.over(L) <= 0]
        for P, V in ((self.pts, self.val), (L, self.data.profit(L) if len(L) else np.zeros(0))):
            better = V > gamma * (1 + EPS) + EPS * min(1.0, abs(self.best))
            if not np.any(better):
                continue
            Y = P[better]
            val = (Y - x) @ g + b
            i = int(np.argmax(val))
            if val[i] > 1e-8 * (1 + float(np.abs(g).sum()) * 10):
                return Y[i].tolist(), float(V[better][i])
        return None


def cut_of(res):
    g, b = res
    g = np.asarray(g, dtype=float)
    if g.shape != (2,) or not np.all(np.isfinite(g)):
        raise Violation("gradient %r is not a finite vector" % (g,))
    if np.ndim(b) != 0 or not np.isfinite(float(b)):
        raise Violation("offset %r is not a finite number" % (b,))
    return g, float(b)


def judge_optim(field, x, gamma, res, what, rec):
    """One assess_optim answer of the plain or robust oracle; returns the level after the call."""
    d = field.data
    cut, new = res
    g, b = cut_of(cut)
    m1, m2 = float(d.over(x)), d.margin(x, gamma)
    rec.check()
    sure_in = m1 < -1e-11 and m2 < -1e-11
    sure_out = m1 > 1e-11 or m2 > 1e-11
    if new is None:
        if sure_in:
            raise Violation("%s at %s, best %r: respects the limit and has profit %.9g, but no new value was reported" % (what, x.tolist(), gamma, d.profit(x)))
        if not b > 0:
            raise Violation("%s at %s, best %r: rejected, but the cut (offset %r) does not exclude the point" % (what, x.tolist(), gamma, b))
        field.check_cut(x, g, b, gamma, what)
        rec.outcome("cut")
        return gamma
    if sure_out:
        raise Violation("%s at %s, best %r: new value %r although %s" % (what, x.tolist(), gamma, new, "the limit is violated" if m1 > 1e-11 else "the profit is only %.9g" % d.profit(x)))
    p = float(d.profit(x))
    if abs(float(new) - p) > 1e-9 * d.scale(x):
        raise Violation("%s at %s, best %r: reported %r, true profit %.12g" % (what, x.tolist(), gamma, float(new), p))
    field.check_cut(x, g, b, float(new), what)
    rec.outcome("improved")
    return float(new)


PROBLEMS = [
    # (unit price, scale, limit), elasticities, input prices, ints
    ((20.0, 40.0, 30.5), (0.1, 0.4), (10.0, 35.0), False),
    ((2.0, 5.0, 3.0), (0.3, 0.5), (1.0, 2.0), False),
    ((1.0, 8.0, 20.0), (0.5, 0.25), (1.0, 0.5), False),
    ((3.0, 4.0, 0.5), (0.25, 0.25), (2.0, 1.0), False),
    ((5.0, 3.0, 100.0), (0.6, 0.3), (4.0, 1.0), False),
    ((10.0, 2.0, 7.0), (0.2, 0.2), (3.0, 3.0), True),
    ((4, 6, 2), (0.05, 0.8), (1, 5), False),
    ((10.0, 2.0, 7.0), (1, 0), (3, 2), True),
    # huge and tiny amounts
    ((1000.0, 1000.0, 5e10), (0.5, 0.2), (13.6, 3.6e8), False),
    ((0.01, 0.02, 2e-6), (0.3, 0.2), (10.0, 20.0), False),
]
UNC = [
    (0.0, 0.0, 0.0, 0.0, 0.0),
    (0.003, 0.007, 0.05, 0.05, 0.1),
    (0.05, 0.02, 0.3, 0.1, 0.2),
    (0.04, 0.0, 0.0, 0.0, 0.0),
    (0.0, 0.04, 0.0, 0.0, 0.0),
    (0.0, 0.0, 0.5, 0.0, 0.0),
    (0.0, 0.0, 0.0, 0.25, 0.0),
    (0.0, 0.0, 0.0, 0.0, 0.5),
    (0.06, 0.15, 6.0, 8.0, 4.0),     # large, usable with the first problem only
]


def problem_data(i, unc=None):
    params, el, v, ints = PROBLEMS[i]
    if ints and not all(float(e).is_integer() for e in tuple(el) + tuple(v)):
        ints = False
    return Data(params, el, v, unc, ints)


def query_points(data, field, fine):
    lk = math.log(data.k)
    s0, s1 = field.shift
    xs = sorted({s0 + t for t in (-1.5, -0.4, 0.0, 0.3, 0.9, 1.7, 2.6, 4.0)} | {lk, lk + 0.2, lk - 0.2} | ({s0 + t for t in (-0.8, 0.6, 1.3, 2.1, 3.3, 5.0)} | {lk - 1e-3, lk + 1e-3} if fine else set()))
    ys = sorted({s1 + t for t in (-1.5, -0.4, 0.0, 0.6, 1.4, 2.3, 3.5)} | ({s1 + t for t in (-0.8, 0.25, 1.0, 1.9, 2.9, 4.5)} if fine else set()))
    pts = [np.array(p) for p in itertools.product(xs, ys)]
    o = field.argmax
    pts += [o.copy()] + [o + np.array(d) for d in ((0.05, 0), (-0.05, 0), (0, 0.05), (0, -0.05), (0.01, 0.01), (-0.3, 0.2), (-0.2, -0.3))]
    # around one unit, where the worst case of an elasticity changes sides
    pts += [np.array(p) for e in (4e-4, -4e-4, 1e-6, -1e-6) for p in ((e, 1.1), (0.3, e), (e, e))]
    return pts


def usable(i, unc):
    """The uncertain data stay positive."""
    (p, A, k), el, v, _ = PROBLEMS[i]
    return unc is None or (p > unc[2] and k > unc[3] and min(v) > unc[4])


def base(data, field):
    """A positive level of the order of the best profit."""
    return max(field.best, 1.0) if field.best <= 0 or not np.any(field.shift) else field.best


def levels(data, field):
    b = base(data, field)
    return [0, 0.0, 0.1 * b, 0.5 * b, 0.9 * b, 0.999 * b, 1.2 * b]
