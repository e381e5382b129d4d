"""C17: low-pass oracle - the whole specification is checked from every round-robin position, cuts judged against the whole polytope of admissible filters."""
import itertools
import math

import numpy as np

from ..core import Violation

ID = "C17"
ASSUMPTIONS = ["band edges are away from grid frequencies, so that the split of the grid is unambiguous",
               "points within 1e-9 of a bound may be decided either way",
               "the exact maximum of a cut over all admissible filters is computed over the vertices of the specification polytope (2 and 3 coefficients) or by linear programming (more)"]

# ndim, wpass, wstop, lower, upper, stop
CONFIGS = {
    "a2": (2, 0.2, 0.63, 0.8, 1.2, 0.5),
    "b2": (2, 0.01, 0.98, 0.7, 1.0, 0.3),
    "c2": (2, 0.5, 0.51, 0.4, 1.3, 0.6),
    "a3": (3, 0.26, 0.56, 0.85, 1.15, 0.25),
    "b3": (3, 0.4, 0.71, 0.8, 1.25, 0.2),
    "a4": (4, 0.3, 0.57, 0.9, 1.1, 0.2),
    "a5": (5, 0.21, 0.46, 0.9, 1.1, 0.1),
    "i3": (3, 0.3, 0.62, 1, 2, 1),
    "f4": None,  # create_lowpass_case(4)
    "f20": None,  # create_lowpass_case(20)
    "n4": (4, 0.5, 0.517, 0.0, 2.0, 1.8),  # one frequency between the bands
    "n6": (6, 0.4, 0.409, 0.0, 2.0, 1.5),
    "t3": (3, 0.1, 0.92, 0.5, 1.5, 0.9),
    "t5": (5, 0.08, 0.93, 0.5, 1.5, 1.0),
    "w6": (6, 0.35, 0.66, 0.4, 1.6, 0.7),
    "a7": (7, 0.23, 0.41, 0.92, 1.08, 0.08),
    "l12": (12, 0.5211, 0.6113, 0.9, 1.1, 0.1),
    "l16": (16, 0.3137, 0.3713, 0.85, 1.2, 0.2),
    "l34": (34, 0.6211, 0.6513, 0.9, 1.12, 0.15),
    "f48": None,  # create_lowpass_case()
}
LONG = ("l12", "l16", "l34", "f48")
FACTORY = {"f4": 4, "f20": 20, "f48": 48}


class Spec:
    def __init__(self, name):
        self.name = name
        if name in FACTORY:
            n = FACTORY[name]
            self.par = (n, 0.12, 0.20, 1.025 ** -2, 1.025 ** 2, 0.125 ** 2)
        else:
            self.par = CONFIGS[name]
        n, wp, ws, lo, up, sp = self.par
        self.n, self.lo, self.up, self.sp = n, lo, up, sp
        m = 15 * n
        w = [math.pi * i / (m - 1) for i in range(m)]
        self.R = np.array([[1.0] + [2.0 * math.cos(k * v) for k in range(1, n)] for v in w])
        e = [i / (m - 1) for i in range(m)]
        for edge in (wp, ws):
            assert name in FACTORY or min(abs(edge - v) for v in e) > 1e-6
        self.pb = [i for i in range(m) if e[i] <= wp]
        self.sb = [i for i in range(m) if e[i] > ws]
        self.tb = [i for i in range(m) if wp < e[i] <= ws]
        self._sup, self._poly = {}, {}

    def make(self):
        from ellalgo.oracles.lowpass_oracle import LowpassOracle, create_lowpass_case

        if self.name in FACTORY:
            return create_lowpass_case(self.n) if self.n != 48 else create_lowpass_case()
        return LowpassOracle(*self.par)

    def cons(self, level):
        """A y <= b"""
        R, Z = self.R, np.zeros
        e0 = Z((1, self.n))
        e0[0, 0] = -1.0
        A = np.concatenate([R[self.pb], -R[self.pb], R[self.sb], -R[self.sb], -R[self.tb], e0])
        b = np.concatenate([np.full(len(self.pb), float(self.up)), np.full(len(self.pb), -float(self.lo)), np.full(len(self.sb), float(level)),
                            Z(len(self.sb)), Z(len(self.tb)), Z(1)])
        return A, b

    def margin(self, x, level):
        """Largest violation of the specification (negative: strictly inside)."""
        A, b = self.cons(level)
        return float(np.max(A @ x - b))

    def vertices(self, level):
        key = round(level, 12)
        if key not in self._poly:
            A, b = self.cons(level)
            idx = np.array(list(itertools.combinations(range(len(b)), self.n)))
            out = []
            for s in range(0, len(idx), 200000):
                M = A[idx[s:s + 200000]]
                d = np.linalg.det(M)
                ok = np.abs(d) > 1e-9
                if not np.any(ok):
                    continue
                V = np.linalg.solve(M[ok], b[idx[s:s + 200000]][ok][..., None])[..., 0]
                V = V[np.max(V @ A.T - b, axis=1) <= 1e-9]
                out.append(V)
            self._poly[key] = np.concatenate(out) if out else np.zeros((0, self.n))
        return self._poly[key]

    def support(self, g, level):
        """max g.y over admissible y (None: there is none)."""
        g = np.asarray(g, dtype=float)
        key = (tuple(np.round(g, 10)), round(float(level), 12))
        if key not in self._sup:
            if self.n == 2:
                V = self.vertices(level)
                self._sup[key] = None if not len(V) else float(np.max(V @ g))
            else:
                from scipy.optimize import linprog

                A, b = self.cons(level)
                r = linprog(-g, A_ub=A, b_ub=b, bounds=[(None, None)] * self.n, method="highs")
                self._sup[key] = float(-r.fun) if r.status == 0 else (float("inf") if r.status == 3 else None)
        return self._sup[key]

    def grazing(self, c, x, level):
        """On the segment from the interior filter c to x (violating one constraint): filters just beyond and just within the bound."""
        mc, mx = self.margin(c, level), self.margin(x, level)
        if not (mc < 0 < mx):
            return []
        A, b = self.cons(level)
        k = int(np.argmax(A @ x - b))
        vc, vx = float(A[k] @ c - b[k]), float(A[k] @ x - b[k])
        out = []
        for v in (4e-7, 3e-8, -3e-8, -4e-7):
            t = (v - vc) / (vx - vc)
            if 0 < t < 1:
                out.append(c + t * (x - c))
        return out

    def isolating(self, level, stride=1, start=0):
        """For every single constraint a filter that violates only this one (where that is possible)."""
        from scipy.optimize import linprog

        A, b = self.cons(level)
        out = []
        for k in range(start, len(b), stride):
            bb = b.copy()
            bb -= 1e-6
            bb[k] = b[k] + 0.05
            r = linprog(-A[k], A_ub=A, b_ub=bb, bounds=[(None, None)] * self.n, method="highs")
            if r.status == 0 and float(A[k] @ r.x - b[k]) > 1e-5:
                out.append(np.array(r.x))
        return out


def judge_cut(spec, x, cut, level, what):
    g = np.asarray(cut[0], dtype=float)
    b = cut[1]
    if g.shape != (spec.n,) or not np.all(np.isfinite(g)) or not np.any(g):
        raise Violation("%s: gradient %s" % (what, g))
    if np.ndim(b) == 0:
        b0, b1 = float(b), None
    else:
        b0, b1 = float(b[0]), (float(b[1]) if len(b) > 1 else None)
    tol = 1e-7
    s = spec.support(g, level)
    if s is not None and s - float(g @ x) + b0 > tol:
        raise Violation("%s: cut %s, %s at %s excludes an admissible filter (%.3g beyond the cut)" % (what, g.tolist(), b, x.tolist(), s - float(g @ x) + b0))
    if b1 is not None:
        s = spec.support(-g, level)
        if s is not None and -s - float(g @ x) + b1 < -tol:
            raise Violation("%s: second plane of cut %s, %s at %s excludes an admissible filter (%.3g)" % (what, g.tolist(), b, x.tolist(), -s - float(g @ x) + b1))
    return b0


class Run:
    """One oracle with the specification's view of its level."""

    def __init__(self, spec, rec, inplace=False):
        self.spec, self.rec = spec, rec
        self.orc = spec.make()
        self.level = float(spec.sp)
        self.trail = []
        self.buf = np.zeros(spec.n) if inplace else None      # the caller's array, moved in place from query to query

    def ask(self, x, gamma=None):
        """gamma None: feasibility query."""
        if self.buf is None:
            q = x.copy()
        else:
            self.buf[:] = x
            q = self.buf
        self.trail.append((x.tolist(), gamma))
        if gamma is None:
            res, new = self.orc.assess_feas(q), None
        else:
            res, new = self.orc.assess_optim(q, gamma)
            self.level = float(gamma)
        if not np.array_equal(q, x):
            raise Violation("the queried point was modified")
        rec, spec = self.rec, self.spec
        rec.step()
        rec.check()
        what = "%s after %d queries, %s query at level %.6g" % (spec.name, len(self.trail) - 1, "feasibility" if gamma is None else "optimizing", self.level)
        m = spec.margin(x, self.level)
        accepted = (res is None) if gamma is None else (new is not None)
        if accepted and m > 1e-9:
            raise Violation("%s: accepted %s, which misses the specification by %.3g; trail %s" % (what, x.tolist(), m, self.trail[:-1]))
        if not accepted and m < -1e-9:
            raise Violation("%s: rejected %s, which meets the specification; trail %s" % (what, x.tolist(), self.trail[:-1]))
        if accepted and gamma is None:
            rec.outcome("accepted")
            return
        if accepted:
            top = float(np.max(spec.R[spec.sb] @ x))
            if abs(float(new) - top) > 1e-9:
                raise Violation("%s: reported %r, the stopband maximum is %.12g; trail %s" % (what, float(new), top, self.trail))
            judge_cut(spec, x, res, float(new), what)
            rec.outcome("improved")
            return
        b0 = judge_cut(spec, x, res, self.level, what)
        if not b0 > 0:
            raise Violation("%s: rejected %s, but offset %r does not exclude it; trail %s" % (what, x.tolist(), b0, self.trail[:-1]))
        rec.outcome("pair" if np.ndim(res[1]) else "single")


def base_points(spec):
    """A feasible point (if any) and a grid of coefficient vectors around it."""
    from scipy.optimize import linprog

    A, b = spec.cons(spec.sp)
    # deepest point: max t with A y + t <= b
    r = linprog(np.r_[np.zeros(spec.n), -1.0], A_ub=np.c_[A, np.ones(len(b))], b_ub=b, bounds=[(None, None)] * spec.n + [(None, None)], method="highs")
    c = r.x[:-1]
    return np.array(c), float(r.x[-1])


def grid(spec, steps):
    c, _ = base_points(spec)
    return [c + np.array(d) for d in itertools.product(steps, repeat=spec.n)]


SHARED = {}


def get(name):
    if name not in SHARED:
        SHARED[name] = Spec(name)
    return SHARED[name]


def sweep(name, part, of, steps, rec):
    """Every point of the grid: fresh oracle and the one that saw the whole sweep so far, both query kinds."""
    spec = get(name)
    run = Run(spec, rec)
    for x in grid(spec, steps)[part::of]:
        rec.state((name, np.round(x, 9).tolist()))
        f = Run(spec, rec)
        f.ask(x)
        lv = [float(spec.sp), 0.6 * spec.sp, 1.5 * spec.sp]
        top = float(np.max(spec.R[spec.sb] @ x))
        if top > 0 and spec.n <= 3:
            lv += [top * 1.001, top * 0.999]
        for g in lv:
            f.ask(x, g)
            f.ask(x)
        run.trail = run.trail[-1:]
        run.ask(x, lv[0])
        rec.trace()


def pairs(name, part, of, stride, rec):
    """Isolating points: stop the scan at every reachable position j, then violate only constraint k."""
    spec = get(name)
    iso = spec.isolating(spec.sp, stride)
    c, depth = base_points(spec)
    if depth > 1e-6:
        iso = iso + [c]
    if spec.n > 8:
        iso += [c + s * np.eye(spec.n)[i] for i in range(spec.n) for s in (-2e-3, 2e-3)]
    for i in range(part, len(iso), of):
        for y in spec.grazing(c, iso[i], spec.sp) if depth > 1e-6 else []:
            for g in (None, float(spec.sp)):
                Run(spec, rec).ask(y, g)
            run = Run(spec, rec)
            run.ask(iso[(i * 7 + 3) % len(iso)])
            run.ask(y)
            run.ask(y, float(spec.sp))
            rec.trace()
        for k in range(len(iso)):
            run = Run(spec, rec, k % 4 < 2)
            run.ask(iso[i], float(spec.sp) if (i + k) % 2 else None)
            run.ask(iso[k], float(spec.sp) if (i + k) % 3 == 0 else None)
            rec.trace()
        rec.state((name, "iso", i))
    rec.notes["isolating points " + name] = len(iso)


def longs(name, part, of, rec):
    """Long filters: for every single constraint a filter violating only it, on a fresh oracle, after itself and after each of a few stopping positions."""
    spec = get(name)
    c, depth = base_points(spec)
    if depth < 1e-6:
        raise AssertionError("configuration %s has no interior" % name)
    mine = spec.isolating(spec.sp, of, part)
    stops = spec.isolating(spec.sp, max(1, len(spec.cons(spec.sp)[1]) // 5), 3)
    for k, x in enumerate(mine):
        rec.state((name, "long", part, k))
        for y in spec.grazing(c, x, spec.sp):
            for g in (None, float(spec.sp)):
                Run(spec, rec).ask(y, g)
            rec.trace()
        for s in [None, x, c] + stops:
            run = Run(spec, rec)
            if s is not None:
                run.ask(s, None if k % 2 else float(spec.sp))
            run.ask(x, float(spec.sp) if k % 3 == 0 else None)
            run.ask(c)
            rec.trace()
    rec.notes["isolating filters %s part %d/%d" % (name, part, of)] = len(mine)


def histories(name, depth, first, rec):
    spec = get(name)
    iso = spec.isolating(spec.sp)
    c, _ = base_points(spec)
    step = max(1, len(iso) // 3)
    pts = [c, 0.5 * c, -c] + iso[::step][:3]
    top = float(np.max(spec.R[spec.sb] @ c))
    acts = [(p, g) for p in range(len(pts)) for g in (None, float(spec.sp), top * 1.01 if top > 0 else 0.5 * spec.sp)]
    for seq, inplace in itertools.product(itertools.product(range(len(acts)), repeat=depth - 1), (False, True)):
        run = Run(spec, rec, inplace)
        for a in (first % len(acts),) + seq:
            p, g = acts[a]
            run.ask(pts[p], g)
        rec.trace()
    rec.state((name, "hist", first))


def bounds(tier):
    return {"configurations": {k: (v or "create_lowpass_case(%d)" % FACTORY[k]) for k, v in CONFIGS.items()},
            "points": "coefficient grids around the deepest admissible filter; for every single constraint a filter violating only it, and filters 3e-8 and 4e-7 beyond and within that bound",
            "histories": "all ordered pairs of isolating filters (every round-robin position x every violated constraint); all sequences of %d queries out of 18" % (3 if tier == "quick" else 4)}


def shards(tier):
    big = tier == "thorough"
    sh = []
    for name in LONG:
        of = {"l34": 24, "f48": 96}.get(name, 8)
        sh += [{"kind": "l", "name": name, "part": p, "of": of} for p in range(0, of, 19 if name == "f48" and not big else 1)]
    for name in CONFIGS:
        if name in LONG:
            continue
        n = get(name).n
        if name == "f20" or not big and name in ("a7", "w6"):
            of = 4 if name != "f20" else 8
            sh += [{"kind": "p", "name": name, "part": p, "of": of, "stride": 1 if name != "f20" else (3 if big else 17)} for p in range(of)]
            continue
        steps = {2: np.linspace(-0.5, 0.5, 41), 3: np.linspace(-0.3, 0.3, 9), 4: np.linspace(-0.2, 0.2, 5), 5: (-0.1, 0.0, 0.1), 6: (-0.1, 0.0), 7: (-0.03, 0.0)}[n]
        if big:
            steps = {2: np.linspace(-0.5, 0.5, 81), 3: np.linspace(-0.3, 0.3, 13), 4: np.linspace(-0.2, 0.2, 7), 5: (-0.1, -0.02, 0.02, 0.1), 6: (-0.1, 0.0, 0.1), 7: (-0.03, 0.0, 0.03)}[n]
        of = 4
        sh += [{"kind": "s", "name": name, "part": p, "of": of, "steps": [float(v) for v in steps]} for p in range(of)]
        sh += [{"kind": "p", "name": name, "part": p, "of": of, "stride": 1} for p in range(of)]
        if n <= 5:
            sh += [{"kind": "h", "name": name, "depth": 3 if not big or n > 3 else 4, "first": f} for f in range(18)]
    return sh


def run_shard(s, rec):
    if s["kind"] == "s":
        rec.run({"shard": s}, sweep, s["name"], s["part"], s["of"], s["steps"], rec)
    elif s["kind"] == "p":
        rec.run({"shard": s}, pairs, s["name"], s["part"], s["of"], s["stride"], rec)
    elif s["kind"] == "l":
        rec.run({"shard": s}, longs, s["name"], s["part"], s["of"], rec)
    else:
        rec.run({"shard": s}, histories, s["name"], s["depth"], s["first"], rec)
    rec.sample(s)


def replay(case, rec):
    run_shard(case["shard"], rec)
