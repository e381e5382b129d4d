"""C19: spectral factorization - all enumerated root constellations, integer responses, valid and invalid sequences."""
import itertools
import math

import numpy as np

from ..core import Violation

ID = "C19"
ASSUMPTIONS = ["roots have modulus at most 0.9 (or at least 1/0.9 before reflection) and the spectrum has a dynamic range below 1e8, so that the oversampled method is accurate to 1e-6",
               "sequences are one-dimensional; spectra between -1e-3 and 1% of their maximum are not judged"]
TOL = 1e-6


def poly(roots, gain):
    """Coefficients of gain * prod (1 - r z^-1)."""
    c = [complex(gain)]
    for r in roots:
        d = c + [0j]
        for i, v in enumerate(c):
            d[i + 1] -= r * v
        c = d
    return np.array([v.real for v in c])


def autocorr(h):
    n = len(h)
    return np.array([sum(h[i + t] * h[i] for i in range(n - t)) for t in range(n)])


def factor(r):
    from ellalgo.oracles.spectral_fact import spectral_fact

    keep = np.array(r, copy=True)
    h = spectral_fact(r)
    if not np.array_equal(keep, np.asarray(r)):
        raise Violation("the sequence was modified")
    h = np.asarray(h)
    if h.shape != (len(keep),) or np.iscomplexobj(h) or not np.all(np.isfinite(h)):
        raise Violation("factor of %s is %s" % (keep.tolist(), h))
    return h


def inverse(h):
    from ellalgo.oracles.spectral_fact import inverse_spectral_fact

    keep = np.array(h, copy=True)
    r = np.asarray(inverse_spectral_fact(h))
    if not np.array_equal(keep, np.asarray(h)):
        raise Violation("the impulse response was modified")
    return r


def known_factor(roots, gain, pad, rec):
    """roots may lie outside: the factor has them reflected."""
    refl, g = [], abs(gain)
    for r in roots:
        if abs(r) > 1:
            refl.append(1 / np.conj(r))
            g *= abs(r)
        else:
            refl.append(r)
    compare(np.concatenate([poly(roots, gain), np.zeros(pad)]), np.concatenate([poly(refl, g), np.zeros(pad)]), roots, rec)


def long_factor(N, m, extra, flip, pad, rec):
    """N equally spaced roots of modulus m (or 1/m before reflection), i.e. 1 - m^N z^-N, times an optional real root."""
    want = np.zeros(N + 1)
    want[0], want[N] = 1.0, -(m ** N)
    h0 = want[::-1].copy() if flip else want.copy()
    if extra:
        want, h0 = np.convolve(want, [1.0, -extra]), np.convolve(h0, [1.0, -extra])
    compare(np.concatenate([h0, np.zeros(pad)]), np.concatenate([want, np.zeros(pad)]), "N=%d m=%s extra=%s" % (N, m, extra), rec)


def compare(h0, want, roots, rec):
    r = autocorr(h0)
    rec.step(3)
    rec.check(3)
    ri = inverse(h0)
    if ri.shape != r.shape or np.max(np.abs(ri - r)) > 1e-12 * (1 + np.max(np.abs(r))):
        raise Violation("autocorrelation of %s is %s, got %s" % (h0.tolist(), r.tolist(), ri.tolist()))
    h = factor(r)
    lo, hi = spectrum_min(r)
    if lo < 1e-8 * hi:
        rec.outcome("dynamic range above 1e8: not judged")
        return
    s = np.max(np.abs(want))
    if np.max(np.abs(h - want)) > TOL * s:
        raise Violation("factor of %s (roots %s) is %s, minimum-phase factor is %s" % (r.tolist(), roots, h.tolist(), want.tolist()))
    back = inverse(h)
    if np.max(np.abs(back - r)) > 1e-5 * np.max(np.abs(r)):
        raise Violation("factor of %s autocorrelates to %s" % (r.tolist(), back.tolist()))
    rec.outcome("factor of order %d" % (len(h) - 1))


REAL = [-0.9, -0.6, -0.3, 0.0, 0.3, 0.6, 0.9]
PAIRS = [(m * complex(math.cos(a), math.sin(a)), m * complex(math.cos(a), -math.sin(a))) for m in (0.3, 0.6, 0.9) for a in (math.pi / 6, math.pi / 3, math.pi / 2, 2.4)]


def outside(r):
    return 1 / np.conj(r) if r != 0 else r


def constellations(order):
    """All multisets of real roots and conjugate pairs of the given order."""
    for np_ in range(order // 2 + 1):
        for pr in itertools.combinations_with_replacement(range(len(PAIRS)), np_):
            for re in itertools.combinations_with_replacement(range(len(REAL)), order - 2 * np_):
                yield [PAIRS[i] for i in pr], [REAL[i] for i in re]


def spectrum_min(r):
    n = len(r)
    w = np.linspace(0, math.pi, 400 * n + 1)
    R = np.full(w.shape, float(r[0]))
    for k in range(1, n):
        R = R + 2 * r[k] * np.cos(k * w)
    return float(R.min()), float(R.max())


def edge_min(r):
    return min(r[0] + 2 * sum(r[1:]), r[0] + 2 * sum((-1) ** k * v for k, v in enumerate(r) if k))


def sequence(r, form, rec):
    """Any sequence: reproduced when its spectrum is clearly positive, refused when clearly negative."""
    lo, hi = spectrum_min(r)
    arr = np.array(r) if form == "int" else np.array(r, dtype=float)
    rec.step()
    rec.check()
    if lo > 0.01 * hi:
        h = factor(arr)
        if np.max(np.abs(inverse(h) - arr)) > 1e-5 * max(map(abs, r)):
            raise Violation("factor of %s autocorrelates to %s" % (r, inverse(h).tolist()))
        if not h[0] > 0:
            raise Violation("first coefficient of the factor of %s is %r" % (r, h[0]))
        z = np.roots(h) if len(h) > 1 else np.zeros(0)
        if len(z) and np.max(np.abs(z)) > 1 + 1e-6:
            raise Violation("factor of %s has a root of modulus %.6g" % (r, np.max(np.abs(z))))
        rec.outcome("positive spectrum")
    elif lo < -1e-3 and (hi < 100 or edge_min(r) < -1e-3):
        refuse(arr, RuntimeError)
        rec.outcome("negative spectrum")
    else:
        rec.outcome("not judged")


def refuse(arr, exc):
    from ellalgo.oracles.spectral_fact import spectral_fact

    try:
        h = spectral_fact(arr)
    except exc:
        return
    except Exception as e:
        raise Violation("%r on input %s instead of %s" % (e, np.asarray(arr).tolist(), exc.__name__))
    raise Violation("input %s gives %s instead of %s" % (np.asarray(arr).tolist(), h, exc.__name__))


def integer_response(h, rec):
    want = autocorr(h)
    got = inverse(np.array(h))
    gotf = inverse(np.array(h, dtype=float))
    rec.step(2)
    rec.check(2)
    if not (got.shape == want.shape and np.array_equal(got, want) and np.array_equal(gotf, want)):
        raise Violation("autocorrelation of %s is %s, got %s / %s" % (h, want.tolist(), got.tolist(), gotf.tolist()))


def bad_value(n, pos, v, rec):
    r = np.array([4.0] + [0.5] * (n - 1))
    r[pos] = v
    refuse(r, ValueError)
    rec.step()
    rec.check()


def bounds(tier):
    o = 5 if tier == "quick" else 6
    return {"constellations": "all multisets of 7 real roots and 12 conjugate pairs of order 0..%d, inside, outside and mixed, gains 1e-4..1e3, padded by 0 or 2" % o,
            "responses": "all integer responses with entries -2..2 up to length %d" % (7 if tier == "quick" else 8),
            "sequences": "all r with r0 in {1, 2, 4, 7} and half-integer r1..r3", "long filters": "equally spaced roots of modulus 0.5, 0.8, 0.9 for every length up to %d" % (48 if tier == "quick" else 96),
            "padded": "a root of modulus 0.98 / 0.99 in responses of every length up to %d (where the oversampling resolves it)" % (80 if tier == "quick" else 200), "negative spectra": "every sequence also with r0 lowered until the minimum is -0.002, -0.01, -0.1", "invalid": "empty; NaN / inf at every position of lengths 1..6"}


def shards(tier):
    out = [{"kind": "bad"}]
    out += [{"kind": "long", "k": k, "max": 48 if tier == "quick" else 96} for k in range(8)]
    out += [{"kind": "pad", "k": k, "max": 80 if tier == "quick" else 200} for k in range(4)]
    for o in range(0, 6 if tier == "quick" else 7):
        mod = 1 if o < 3 else 16
        out += [{"kind": "roots", "order": o, "mod": mod, "k": k, "tier": tier} for k in range(mod)]
    for n in range(1, 8 if tier == "quick" else 9):
        out.append({"kind": "int", "n": n})
    for n in (1, 2, 3, 4):
        out += [{"kind": "seq", "n": n, "r0": r0, "tier": tier} for r0 in (1, 2, 4, 7)]
    return out


def run_shard(s, rec):
    if s["kind"] == "bad":
        for empty in (np.array([]), []):
            rec.run({"empty": 1}, refuse, empty, ValueError)
        for n in range(1, 7):
            for pos in range(n):
                for v in (float("nan"), float("inf"), float("-inf")):
                    rec.run({"n": n, "pos": pos, "v": str(v)}, bad_value, n, pos, v, rec)
                    rec.trace()
    elif s["kind"] == "roots":
        for i, (prs, re) in enumerate(constellations(s["order"])):
            if i % s["mod"] != s["k"]:
                continue
            ins = [r for p in prs for r in p] + re
            outs = [outside(r) for p in prs for r in p] + [outside(r) for r in re]
            mixed = [outside(r) for p in prs[:1] for r in p] + [r for p in prs[1:] for r in p] + [outside(r) if j % 2 else r for j, r in enumerate(re)]
            for roots, gain, pad in ((ins, (1e-4, 1.0, 3.0, 1e3, 0.5)[i % 5], 0), (ins, 1.0, 2), (outs, -1.0, 0), (mixed, 2.0, 0)):
                rec.state([str(r) for r in roots] + [gain, pad])
                rec.run({"roots": [[complex(r).real, complex(r).imag] for r in roots], "gain": gain, "pad": pad}, known_factor, roots, gain, pad, rec)
                rec.trace()
        rec.sample(s)
    elif s["kind"] == "pad":
        # one real root or one equally spaced ring near the unit circle, in responses of every length
        for n in range(2 + s["k"], s["max"] + 1, 4):
            for N, m, flip in ((1, 0.98, False), (1, -0.98, True), (2, 0.99, False)):
                if N + 1 <= n and abs(m) ** (100 * n) < 1e-9:  # else aliasing of the sampled logarithm shows
                    rec.state((N, m, flip, n))
                    rec.run({"N": N, "m": m, "extra": 0, "flip": flip, "pad": n - N - 1}, long_factor, N, m, 0, flip, n - N - 1, rec)
                    rec.trace()
    elif s["kind"] == "long":
        for N in range(1 + s["k"], s["max"] + 1, 8):
            for m in (0.5, 0.8, 0.9):
                for extra, flip, pad in ((0, False, 0), (0, False, 1), (-0.6, False, 0), (0.3, False, 2), (0, True, 0), (-0.6, True, 0)):
                    rec.state((N, m, extra, flip, pad))
                    rec.run({"N": N, "m": m, "extra": extra, "flip": flip, "pad": pad}, long_factor, N, m, extra, flip, pad, rec)
                    rec.trace()
    elif s["kind"] == "int":
        for h in itertools.product((-2, -1, 0, 1, 2), repeat=s["n"]):
            rec.run({"h": list(h)}, integer_response, list(h), rec)
            rec.trace()
    else:
        st = [v / 2 for v in range(-3, 4)] if s["tier"] == "quick" else [v / 4 for v in range(-7, 8)]
        for i, rest in enumerate(itertools.product(st, repeat=s["n"] - 1)):
            r = [s["r0"]] + list(rest)
            form = "int" if all(float(v).is_integer() for v in r) else "float"
            rec.state(r)
            rec.run({"r": r, "form": form}, sequence, [int(v) for v in r] if form == "int" else [float(v) for v in r], form, rec)
            rec.trace()
            if s["n"] > 1 and s["r0"] == 1:
                lo = spectrum_min(r)[0]
                for d in (0.002, 0.01, 0.1):
                    t = [float(r[0] - lo - d)] + [float(v) for v in rest]
                    for sc in (1.0, 2.0 ** 10, 2.0 ** 17):
                        u = [v * sc for v in [float(r[0] - lo - d / sc)] + t[1:]]
                        rec.run({"r": u, "form": "float"}, sequence, u, "float", rec)
                        rec.trace()


def replay(c, rec):
    if "roots" in c:
        known_factor([complex(a, b) for a, b in c["roots"]], c["gain"], c["pad"], rec)
    elif "N" in c:
        long_factor(c["N"], c["m"], c["extra"], c["flip"], c["pad"], rec)
    elif "h" in c:
        integer_response(c["h"], rec)
    elif "r" in c:
        sequence(c["r"], c["form"], rec)
    elif "empty" in c:
        refuse(np.array([]), ValueError)
    else:
        bad_value(c["n"], c["pos"], float(c["v"]), rec)
