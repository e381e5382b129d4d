"""C06: every cut formula yields the minimum-volume enclosing ellipsoid, and all formulations agree."""
import math

from ..core import Violation

ID = "C06"
ASSUMPTIONS = ["argument grids are dense but finite; agreement is judged up to 1e-9 (relative to the half-width for the centre shift)",
               "formulations that divide by the sum (difference) of the offsets are not judged where it is below 0.004 half-widths, and up to 1e-13 divided by its square otherwise"]

DIMS = {"quick": [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 33, 50, 128, 1000],
        "thorough": list(range(2, 41)) + [50, 64, 100, 128, 200, 500, 1000, 10000]}
TSQ = {"quick": [1e-12, 1e-4, 0.01, 0.25, 1.0, 7.3, 1e5, 1e12],
       "thorough": [1e-16, 1e-12, 1e-8, 1e-4, 0.01, 0.25, 1.0, 2.0, 7.3, 100.0, 1e5, 1e8, 1e12, 1e16]}


def grid(tier):
    m = 40 if tier == "quick" else 100
    g = {i / m for i in range(-m, m + 1)}
    g |= {1e-12, 1e-9, 1e-6, 1e-3, -1e-6, -1e-3, 0.999, 0.999999, -0.999, 1 / 3, -1 / 3}
    return sorted(g)


_mp = None


def ref_pair(n, a0, a1, _cache={}):
    """(rho/tau, sigma, delta) of the smallest ellipsoid around {-a1 <= t <= -a0} of the unit ball (50 digits)."""
    global _mp
    if _mp is None:
        import mpmath

        mpmath.mp.dps = 50
        _mp = mpmath
    key = (n, a0, a1)
    if key in _cache:
        return _cache[key]
    mp = _mp
    x0, x1 = mp.mpf(a0), mp.mpf(a1)
    if x1 - x0 < mp.mpf(10) ** -15:      # limit of an equality cut
        x1 = x0 + mp.mpf(10) ** -18
    p = x0 * x1
    m2 = ((x0 + x1) / 2) ** 2
    A, B, C = -(n + 1) * m2, 2 * n * m2 + 1 + p, -(n * p + 1)
    # root of A s^2 + B s + C in [0, 1], stable form
    if A == 0:
        s = -C / B
    else:
        s = 2 * (-C) / (B + mp.sqrt(B * B - 4 * A * C))
    R = 1 + (-p * s + m2 * s * s) / (1 - s)
    r = (float(s * (x0 + x1) / 2), float(s), float(R))
    if len(_cache) < 200000:
        _cache[key] = r
    return r


def ref_single(n, a):
    return ((1 + n * a) / (n + 1), 2 * (1 + n * a) / ((n + 1) * (1 + a)), n * n / (n * n - 1.0) * (1 - a) * (1 + a))


def close(got, want, tau, tol=1e-9):
    return (abs(got[0] / tau - want[0]) <= tol and abs(got[1] - want[1]) <= tol
            and abs(got[2] - want[2]) <= tol * max(1.0, abs(want[2])))


def check_min_single(n, a):
    """The reference itself is cross-checked against the pair reference with the second plane at the pole."""
    s, p = ref_single(n, a), ref_pair(n, a, 1.0)
    return all(abs(x - y) < 1e-9 for x, y in zip(s, p))


def one(n, tsq, a0, a1, rec, insts=None):
    from ellalgo.ell_calc import EllCalc
    from ellalgo.ell_calc_core import EllCalcCore

    if insts is None:
        insts = (EllCalcCore(n), EllCalcCore(float(n)), EllCalc(n))
    core, coref, calc = insts
    tau = math.sqrt(tsq)

    def expect(name, got, want, tol=1e-9):
        rec.check()
        rec.step()
        try:
            got = tuple(float(v) for v in got)
        except TypeError:
            raise Violation("%s(n=%d, a0=%r, a1=%r, tsq=%g) returned %r" % (name, n, a0, a1, tsq, got))
        if len(got) != 3 or not all(math.isfinite(v) for v in got) or not close(got, want, tau, tol):
            raise Violation("%s(n=%d, offsets %r, %r x half-width, tsq=%g) = %s, minimum-volume ellipsoid is %s"
                            % (name, n, a0, a1, tsq, got, (want[0] * tau, want[1], want[2])))

    def call(obj, name):
        return getattr(obj, name, None)

    if a1 is None:
        b = a0 * tau
        want = ref_single(n, a0)
        if not check_min_single(n, a0):
            raise Violation("internal: references disagree")
        for c in (core, coref):
            expect("calc_bias_cut", c.calc_bias_cut(b, tau), want)
            if call(c, "calc_bias_cut_fast"):
                expect("calc_bias_cut_fast", c.calc_bias_cut_fast(b, tau, tau + n * b), want)
            if a0 == 0:
                expect("calc_central_cut", c.calc_central_cut(tau), want)
        todo = []
        if a0 >= 0 and a0 < 1:
            todo.append(("EllCalc.calc_bias_cut", calc.calc_bias_cut(b, tsq)))
            todo.append(("EllCalc.calc_single_or_parallel", calc.calc_single_or_parallel(b, tsq)))
            if a0 == 0:
                todo.append(("EllCalc.calc_single_or_parallel_central_cut", calc.calc_single_or_parallel_central_cut(b, tsq)))
                todo.append(("EllCalc.calc_single_or_parallel_central_cut", calc.calc_single_or_parallel_central_cut([b, 1.5 * tau], tsq)))
            todo.append(("EllCalc.calc_parallel (second plane outside)", calc.calc_parallel(b, 1.5 * tau, tsq)))
        if -1 / n + 1e-9 < a0 < 1:
            todo.append(("EllCalc.calc_bias_cut_q", calc.calc_bias_cut_q(b, tsq)))
            todo.append(("EllCalc.calc_single_or_parallel_q", calc.calc_single_or_parallel_q(b, tsq)))
            todo.append(("EllCalc.calc_parallel_q (second plane outside)", calc.calc_parallel_q(b, 1.5 * tau, tsq)))
        for name, (st, res) in todo:
            if st.name != "Success" or res is None:
                raise Violation("%s(n=%d, a=%r, tsq=%g) reports %s" % (name, n, a0, tsq, st))
            expect(name, res, want)
        return
    b0, b1 = a0 * tau, a1 * tau
    want = ref_pair(n, a0, a1)
    # cancellation in 1 - a^2 near the poles
    tol = 1e-9 if max(abs(a0), abs(a1)) < 0.9999 else 1e-7
    eta, b0b1 = tsq + n * (b0 * b1), b0 * b1
    asum, adif = abs(a0 + a1), a1 - a0
    for c in (core, coref):
        expect("calc_parallel_bias_cut", c.calc_parallel_bias_cut(b0, b1, tsq), want, tol)
        if call(c, "calc_parallel_bias_cut_fast"):
            expect("calc_parallel_bias_cut_fast", c.calc_parallel_bias_cut_fast(b0, b1, tsq, b0b1, eta), want, tol)
        if asum >= 0.004:
            t2 = max(1e-8, 1e-12 / asum ** 2)
            if call(c, "calc_parallel_bias_cut_fast2"):
                expect("calc_parallel_bias_cut_fast2", c.calc_parallel_bias_cut_fast2(b0, b1, tsq, b0b1, eta), want, t2)
            if call(c, "calc_parallel_bias_cut_old"):
                expect("calc_parallel_bias_cut_old", c.calc_parallel_bias_cut_old(b0, b1, tsq), want, t2)
        if adif >= 0.004 and call(c, "calc_parallel_bias_cut_fast_old"):
            expect("calc_parallel_bias_cut_fast_old", c.calc_parallel_bias_cut_fast_old(b0, b1, tsq, b0b1, eta), want, max(1e-8, 1e-12 / adif ** 2))
        if a0 == 0 and a1 > 0:
            expect("calc_parallel_central_cut", c.calc_parallel_central_cut(b1, tsq), want, tol)
            if a1 >= 0.004 and call(c, "calc_parallel_central_cut_old"):
                expect("calc_parallel_central_cut_old", c.calc_parallel_central_cut_old(b1, tsq), want, max(1e-8, 1e-12 / a1 ** 2))
    todo = []
    if -1 < a0 and -1 < a1 < 1 and 1 + n * a0 * a1 > 1e-9:
        todo.append(("EllCalc.calc_parallel", calc.calc_parallel(b0, b1, tsq)))
        todo.append(("EllCalc.calc_parallel_q", calc.calc_parallel_q(b0, b1, tsq)))
        todo.append(("EllCalc.calc_single_or_parallel", calc.calc_single_or_parallel([b0, b1], tsq)))
        todo.append(("EllCalc.calc_single_or_parallel_q", calc.calc_single_or_parallel_q((b0, b1), tsq)))
        if a0 == 0 and a1 >= 0:
            todo.append(("EllCalc.calc_single_or_parallel_central_cut", calc.calc_single_or_parallel_central_cut([b0, b1], tsq)))
    for name, (st, res) in todo:
        if st.name != "Success" or res is None:
            raise Violation("%s(n=%d, offsets %r, %r, tsq=%g) reports %s" % (name, n, a0, a1, tsq, st))
        expect(name, res, want, tol)


def bounds(tier):
    return {"dimensions": DIMS[tier], "tsq": TSQ[tier], "offset grid": len(grid(tier)), "pairs": "all pairs a0 <= a1 of the grid with 1 + n*a0*a1 > 0"}


def shards(tier):
    return [{"n": n, "part": i, "of": 4} for n in sorted(DIMS[tier], key=lambda n: abs(n - 20)) for i in range(4)]


def cases(n, tier):
    gr = grid(tier)
    for tsq in TSQ[tier]:
        for a in sorted(set(gr) | {-0.5 / n, -0.9 / n, -0.999 / n}):
            if -1 / n < a <= 1:
                yield tsq, a, None
        for a0 in gr:
            for a1 in sorted(set(gr) | {a0 + 0.005, a0 + 0.01, -a0 - 0.005, -a0 + 0.01}):
                if a0 <= a1 and 1 + n * a0 * a1 > 1e-6 and -1 < a0 and a1 <= 1 and not (a0 == 1 and a1 == 1) and not a1 <= -1:
                    yield tsq, a0, a1


def run_shard(shard, rec):
    from ellalgo.ell_calc import EllCalc
    from ellalgo.ell_calc_core import EllCalcCore

    n = shard["n"]
    insts = (EllCalcCore(n), EllCalcCore(float(n)), EllCalc(n))
    prev = None
    for k, (tsq, a0, a1) in enumerate(cases(n, rec.tier)):
        if k % shard["of"] != shard["part"]:
            continue
        rec.run({"n": n, "tsq": tsq, "a0": a0, "a1": a1}, one, n, tsq, a0, a1, rec, insts)
        if prev is not None and k % 50 == 0:     # same instance, earlier arguments again: no hidden state
            rec.run({"n": n, "tsq": prev[0], "a0": prev[1], "a1": prev[2]}, one, n, *prev, rec, insts)
        prev = (tsq, a0, a1)
        rec.trace()
        rec.state((n, tsq, a0, a1))
        if k < 2:
            rec.sample({"n": n, "tsq": tsq, "a0": a0, "a1": a1})
        rec.outcome("single" if a1 is None else "parallel")


def replay(case, rec):
    one(case["n"], case["tsq"], case["a0"], case["a1"], rec)
