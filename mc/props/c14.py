"""C14: LMI oracles - exact acceptance, cut validity against every enumerated feasible point, agreement, history independence."""
import functools
import itertools
from fractions import Fraction

import numpy as np

from .. import ldlt
from ..core import Violation

ID = "C14"
ASSUMPTIONS = ["coefficient matrices have small integer entries, points are multiples of 1/2, so the matrix of a point is exact",
               "acceptance of an exactly singular matrix is judged only when the factorization is exact in floating point",
               "values are compared up to 1e-9"]


@functools.lru_cache(maxsize=None)
def info(flat, n):
    """flat: matrix entries times 2, as a tuple of ints -> (definite | None, psd, reference witness or None, ep)."""
    rows = [[Fraction(flat[i * n + j], 2) for j in range(n)] for i in range(n)]
    bad = ldlt.first_bad_pivot(rows)
    if bad is None:
        return True, True, None, None
    psd = ldlt.is_psd(rows)
    p, ep = bad[0], -bad[1]
    exact = ldlt.exact(rows, False)[2]
    # witness: v[p] = 1 and A[:p,:p] v[:p] = -A[:p,p]
    A = [[rows[i][j] for j in range(p)] + [-rows[i][p]] for i in range(p)]
    for k in range(p):
        piv = A[k][k]
        A[k] = [a / piv for a in A[k]]
        for i in range(p):
            if i != k and A[i][k] != 0:
                f = A[i][k]
                A[i] = [a - f * b for a, b in zip(A[i], A[k])]
    v = [A[i][p] for i in range(p)] + [Fraction(1)] + [Fraction(0)] * (n - p - 1)
    want = None if (bad[1] == 0 and not exact) else False
    return want, psd, np.array([float(a) for a in v]), float(ep)


SYM2 = [[[a, o], [o, c]] for a in (-1, 0, 1) for o in (-1, 0, 1) for c in (-1, 0, 1)]
BS2 = [[[1, 0], [0, 1]], [[2, 1], [1, 2]], [[1, 1], [1, 1]], [[0, 0], [0, 0]], [[2, 0], [0, -1]], [[0, 1], [1, 0]], [[3, -1], [-1, 1]], [[-1, 0], [0, 2]], [[1, 2], [2, 3]]]
SYM3 = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, 0]], [[0, 0, 1], [0, 0, 0], [1, 0, 0]],
    [[0, 0, 0], [0, 0, 1], [0, 1, 0]], [[1, 0, 0], [0, -1, 0], [0, 0, 0]], [[0, 0, 0], [0, 0, 0], [0, 0, 1]],
    [[2, 1, 0], [1, 2, 1], [0, 1, 2]], [[-1, 1, 1], [1, 0, 2], [1, 2, 1]], [[0, 0, 0], [0, 1, 0], [0, 0, -1]],
    [[-2, 0, 1], [0, -1, 0], [1, 0, -3]],
]
BS3 = [[[2, 0, 0], [0, 2, 0], [0, 0, 2]], [[3, 1, 1], [1, 3, 1], [1, 1, 3]], [[1, 1, 0], [1, 2, 1], [0, 1, 2]], [[1, 1, 1], [1, 1, 1], [1, 1, 1]],
       [[0, 0, 0], [0, 0, 0], [0, 0, 0]], [[2, 1, 0], [1, -1, 0], [0, 0, 4]], [[4, -2, 1], [-2, 4, -2], [1, -2, 1]]]
SYM4 = [
    [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]],
    [[0, 0, 0, 1], [0, 0, 0, 0], [0, 0, 0, 0], [1, 0, 0, 0]],
    [[0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]],
    [[0, 0, 0, 0], [0, 1, 1, 0], [0, 1, 0, -1], [0, 0, -1, 1]],
]
BS4 = [[[2, 1, 0, 0], [1, 2, 1, 0], [0, 1, 2, 1], [0, 0, 1, 2]], [[1, 0, 0, 1], [0, 1, 0, 0], [0, 0, 1, 0], [1, 0, 0, 1]], [[3, 0, 0, 0], [0, 3, 0, 0], [0, 0, 3, 0], [0, 0, 0, -1]]]


def grid(nv, tier):
    if nv == 1:
        pts = [(k,) for k in range(-6, 7)]
    elif nv == 2:
        r = (-4, -2, -1, 0, 1, 2, 4)
        pts = list(itertools.product(r, repeat=2))
    elif nv > 3:
        # the origin, points on the axes and all pairs of axes
        pts = [(0,) * nv]
        for i in range(nv):
            for a in (-6, -2, -1, 1, 2, 6):
                pts.append(tuple(a if k == i else 0 for k in range(nv)))
            for j in range(i):
                for a, b in ((1, 1), (-2, 1), (2, -4)):
                    pts.append(tuple(a if k == i else b if k == j else 0 for k in range(nv)))
        pts.append(tuple((-1) ** k * (k % 3) for k in range(nv)))
        pts.append(tuple(1 + k % 2 for k in range(nv)))
    else:
        pts = list(itertools.product((-2, -1, 0, 1, 2) if tier == "thorough" else (-2, 0, 1, 2), repeat=3))
    return pts  # times 2


class Problem:
    def __init__(self, F, B, tier):
        self.F, self.B = F, B
        self.m, self.nv = len(B), len(F)
        self.pts = grid(self.nv, tier)
        Fi, Bi = np.array(F), np.array(B)
        M2 = 2 * Bi[None] - np.tensordot(np.array(self.pts), Fi, axes=1)
        self.inf = [info(tuple(int(v) for v in M2[k].ravel()), self.m) for k in range(len(self.pts))]
        self.X = np.array(self.pts) / 2.0
        self.psd = np.array([i[1] for i in self.inf])
        self.feas = self.X[self.psd]
        self.Ff = [f.astype(float) for f in Fi]
        self.Bf = Bi.astype(float)

    def make(self, kind, ints=False):
        from ellalgo.oracles.lmi0_oracle import LMI0Oracle
        from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
        from ellalgo.oracles.lmi_oracle import LMIOracle

        if ints:
            F, B = [np.array(f) for f in self.F], np.array(self.B)
        else:
            F, B = [f.copy() for f in self.Ff], self.Bf.copy()
        if kind == "lazy":
            return LMIOracle(F, B)
        if kind == "old":
            return LMIOldOracle(F, B)
        return LMI0Oracle([B] + [-f for f in F])

    def ask(self, kind, orc, k, intpt=False, buf=None):
        """buf: a dict in which the caller's point lives across queries, moved in place."""
        x = self.X[k].copy() if not (intpt and all(p % 2 == 0 for p in self.pts[k])) else np.array([p // 2 for p in self.pts[k]])
        q = np.concatenate([np.array([1], dtype=x.dtype), x]) if kind == "zero" else x
        if buf is not None:
            if kind in buf:
                buf[kind][:] = q
            else:
                buf[kind] = np.array(q, dtype=float)
            q = buf[kind]
        keep = q.copy()
        cut = orc.assess_feas(q)
        if not np.array_equal(q, keep):
            raise Violation("%s oracle modified the queried point" % kind)
        return cut

    def judge(self, kind, cut, k, rec):
        want, psd, v, ep = self.inf[k]
        rec.check()
        x = self.X[k]
        if want is None:
            return
        if (cut is None) != want:
            raise Violation("%s oracle at %s: %s, but the matrix is %sdefinite" % (kind, x.tolist(), "accepted" if cut is None else "rejected", "" if want else "not "))
        if cut is None:
            rec.outcome("feasible")
            return
        g, b = np.asarray(cut[0], dtype=float), float(cut[1])
        n0 = 1 if kind == "zero" else 0
        if g.shape != (self.nv + n0,):
            raise Violation("gradient has shape %s" % (g.shape,))
        if not b >= 0:
            raise Violation("%s oracle at %s: ep = %r" % (kind, x.tolist(), b))
        if kind == "zero":
            # all enumerated feasible points of the homogeneous constraint: (t, t*y) with t in {0.5, 1, 2}
            for t in (0.5, 1.0, 2.0):
                if len(self.feas):
                    val = g[0] * (t - 1.0) + (t * self.feas - x) @ g[1:] + b
                    if np.max(val) > 1e-9 * (1 + np.abs(g).sum()) * 8:
                        raise Violation("constant-free oracle at %s: cut %s, %r excludes %s" % (x.tolist(), g.tolist(), b, self.feas[int(np.argmax(val))].tolist()))
        elif len(self.feas):
            val = (self.feas - x) @ g + b
            if np.max(val) > 1e-9 * (1 + np.abs(g).sum()) * 8:
                raise Violation("%s oracle at %s: cut %s, %r excludes the feasible point %s" % (kind, x.tolist(), g.tolist(), b, self.feas[int(np.argmax(val))].tolist()))
        gw = np.array(([-(v @ self.Bf @ v)] if n0 else []) + [v @ f @ v for f in self.Ff])
        if np.max(np.abs(g - gw)) > 1e-9 * (1 + np.max(np.abs(gw))) or abs(b - ep) > 1e-9 * (1 + abs(ep)):
            raise Violation("%s oracle at %s: cut %s, %r is not the restriction %s, %r of the violated form" % (kind, x.tolist(), g.tolist(), b, gw.tolist(), ep))
        rec.outcome("cut at size %d" % (int(np.max(np.nonzero(v)[0])) + 1))

    def same(self, a, b, k, what):
        if self.inf[k][0] is None:
            return
        if (a is None) != (b is None):
            raise Violation("%s at %s: one accepts, the other cuts" % (what, self.X[k].tolist()))
        if a is None:
            return
        ga, gb = np.asarray(a[0], dtype=float), np.asarray(b[0], dtype=float)
        ga, gb = ga[-self.nv:], gb[-self.nv:]
        s = 1 + np.max(np.abs(ga))
        if np.max(np.abs(ga - gb)) > 1e-9 * s or abs(float(a[1]) - float(b[1])) > 1e-9 * s:
            raise Violation("%s at %s: cuts %s, %r and %s, %r" % (what, self.X[k].tolist(), ga.tolist(), float(a[1]), gb.tolist(), float(b[1])))

    def sweep(self, rec):
        """One oracle of each kind over the whole grid (back and forth), every answer judged."""
        ints = (sum(map(sum, self.B)) + sum(sum(map(sum, f)) for f in self.F)) % 2 == 0
        orcs = {k: self.make(k, ints) for k in ("lazy", "old", "zero")}
        for k in range(len(self.pts)):
            cuts = {}
            for kind, orc in orcs.items():
                c = cuts[kind] = self.ask(kind, orc, k, ints)
                rec.step()
                self.judge(kind, c, k, rec)
            self.same(cuts["lazy"], cuts["old"], k, "lazy and legacy oracle")
            self.same(cuts["lazy"], cuts["zero"], k, "lazy and constant-free oracle")
        for kind, orc in orcs.items():
            mf = orc.mat_f if hasattr(orc, "mat_f") else None
            if mf is not None:
                ref = ([self.Bf] + [-f for f in self.Ff]) if kind == "zero" else self.Ff
                if any(not np.array_equal(a, b) for a, b in zip(mf, ref)):
                    raise Violation("%s oracle changed its coefficient matrices" % kind)
        rec.trace(3)

    def scaled(self, rec):
        """Power-of-two changes of units (exact in floating point): variables, variables one by one, and the whole constraint."""
        units = [(1.0, [2.0 ** -40] * self.nv), (1.0, [2.0 ** 33] * self.nv), (2.0 ** -70, [1.0] * self.nv), (2.0 ** 64, [1.0] * self.nv)]
        if self.nv > 1:
            units += [(1.0, [2.0 ** -36 if j == i else 1.0 for j in range(self.nv)]) for i in range(self.nv)]
        for c, u in units:
            q = Problem.__new__(Problem)
            q.__dict__.update(self.__dict__)
            q.X = self.X * np.array(u)
            q.Ff = [f * (c / w) for f, w in zip(self.Ff, u)]
            q.Bf = self.Bf * c
            orcs = {k: q.make(k) for k in ("lazy", "old", "zero")}
            for k in self.spread():
                for kind, orc in orcs.items():
                    cut = q.ask(kind, orc, k)
                    rec.step()
                    rec.check()
                    if cut is not None:
                        g = np.asarray(cut[0], dtype=float) / c
                        g = np.r_[g[:-self.nv], g[-self.nv:] * np.array(u)]
                        cut = (g, float(cut[1]) / c)
                    try:
                        self.judge(kind, cut, k, rec)
                    except Violation as e:
                        raise Violation("in units %s, constraint scaled by %g: %s" % (u, c, e))
            rec.trace(3)

    def histories(self, rec, depth):
        """All query sequences of the given depth over a spread of points: same answers as a fresh oracle."""
        ks = self.spread()
        fresh = {}
        for kind in ("lazy", "old", "zero"):
            for k in ks:
                fresh[kind, k] = self.ask(kind, self.make(kind), k)
        for kind in ("lazy", "old", "zero"):
            for seq in itertools.product(ks, repeat=depth):
                for buf in (None, {}):     # the caller passes a new array each time, or moves one in place
                    orc = self.make(kind)
                    for k in seq:
                        c = self.ask(kind, orc, k, False, buf)
                        rec.step()
                        self.same(fresh[kind, k], c, k, "%s oracle, fresh and after queries %s%s," % (kind, [self.X[j].tolist() for j in seq], "" if buf is None else " with one array"))
                    rec.trace()

    def spread(self):
        """Points with different outcomes: accepted, and rejected at each size, two of each."""
        out, seen = [], {}
        for k, (want, psd, v, ep) in enumerate(self.inf):
            key = (want, None if v is None else int(np.max(np.nonzero(v)[0])), psd)
            if seen.get(key, 0) < (2 if want is False else 1):
                seen[key] = seen.get(key, 0) + 1
                out.append(k)
        return out[:6]


def large(m, nv, variant):
    """m x m, nv variables: each variable sits at its own place of the matrix, the constant is diagonally dominant (or not quite)."""
    F = []
    for j in range(nv):
        M = [[0] * m for _ in range(m)]
        i = (j * 5 + variant) % m
        k = (m - 1 - j * 3 - variant) % m
        M[i][k] += 1
        M[k][i] += 1
        if j % 2:
            M[(i + 1) % m][(i + 1) % m] += 1 if j % 4 == 1 else -1
        F.append(M)
    F[-1] = [[1 if i == k else 0 for k in range(m)] for i in range(m)]
    B = [[(3 if variant != 2 or i < m - 1 else -1) if i == k else (1 if abs(i - k) == 1 + variant else 0) for k in range(m)] for i in range(m)]
    return F, B


LARGE = [(5, 5), (6, 4), (8, 9), (9, 6), (12, 8), (17, 4), (3, 12)]


def problems(shard):
    t = shard["tier"]
    if shard["kind"] == "m1":
        for nv in (1, 2):
            for F in itertools.product((-2, -1, 0, 1), repeat=nv):
                for b in (-1, 0, 1, 2):
                    yield [[[f]] for f in F], [[b]]
    elif shard["kind"] == "m2n1":
        for F in SYM2:
            for B in BS2 if t == "quick" else BS2 + SYM2:
                yield [F], B
    elif shard["kind"] == "m2n2":
        for F2 in SYM2:
            for B in BS2:
                yield [SYM2[shard["f"]], F2], B
    elif shard["kind"] == "m2n3":
        S = SYM2[1::5]
        for F2 in S:
            for F3 in S[:3]:
                for B in BS2[: (2 if t == "quick" else 9)]:
                    yield [S[shard["f"]], F2, F3], B
    elif shard["kind"] == "m3":
        for F2 in SYM3:
            for B in BS3:
                yield [SYM3[shard["f"]], F2], B
    elif shard["kind"] == "m3n3":
        for B in BS3[: (2 if t == "quick" else 7)]:
            yield [SYM3[shard["f"]], SYM3[(shard["f"] + 1) % 10], SYM3[(shard["f"] + 3) % 10]], B
    elif shard["kind"] == "big":
        yield large(*shard["big"])
    elif shard["kind"] == "m4":
        for F2 in SYM4:
            for B in BS4:
                yield [SYM4[shard["f"]], F2], B


def bounds(tier):
    return {"sizes": "m=1..4, 1..3 variables; (m, variables) in %s with points on all axes and pairs of axes" % LARGE, "matrices": "all 27 symmetric 2x2 with entries -1..1, 10 of size 3, 4 of size 4", "points": "half-integer grids of 13..125 points; a spread of them again in 4..7 power-of-two unit systems",
            "histories": "all query sequences of length %d over points with different outcomes" % (3 if tier == "quick" else 4)}


def shards(tier):
    out = [{"kind": "big", "big": [m, nv, v]} for m, nv in LARGE[::-1] for v in range(3)]
    out += [{"kind": "m1"}, {"kind": "m2n1"}]
    out += [{"kind": "m2n2", "f": f} for f in range(27)]
    out += [{"kind": "m2n3", "f": f} for f in range(len(SYM2[1::5]))]
    out += [{"kind": "m3", "f": f} for f in range(10)]
    out += [{"kind": "m3n3", "f": f} for f in range(10)]
    out += [{"kind": "m4", "f": f} for f in range(4)]
    for s in out:
        s["tier"] = tier
    return out


def one(F, B, tier, hist, rec):
    p = Problem(F, B, tier)
    p.sweep(rec)
    p.scaled(rec)
    if hist:
        p.histories(rec, 3 if tier == "quick" else 4)


def run_shard(shard, rec):
    n = 0
    for F, B in problems(shard):
        rec.state((F, B))
        hist = n % 5 == 0 or shard["tier"] == "thorough"
        n += 1
        rec.run({"F": F, "B": B, "tier": shard["tier"], "hist": hist}, one, F, B, shard["tier"], hist, rec)
    rec.sample({"F": F, "B": B})


def replay(case, rec):
    one(case["F"], case["B"], case["tier"], case["hist"], rec)
