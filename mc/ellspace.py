"""Shared machinery for the checks that explore histories of ellipsoid updates (C01-C05).

Everything is observed through the public interface: the centre by xc(), and the ellipsoid by
applying central probing cuts to copies of the space and reading tsq() = g'Pg (P = scaled shape).
"""
import math
import pickle

import numpy as np

from .core import Violation

UPD = {"bias": "update_bias_cut", "central": "update_central_cut", "q": "update_q"}


class Obs:
    __slots__ = ("xc", "P", "n")

    def __init__(self, xc, P):
        self.xc, self.P, self.n = xc, P, len(xc)


def make(cfg):
    from ellalgo.ell import Ell
    from ellalgo.ell_stable import EllStable

    cls = {"Ell": Ell, "EllStable": EllStable}[cfg["cls"]]
    kind, val = cfg["init"]
    if kind == "diag":
        val = np.array(val, dtype=float)
    xc = np.array(cfg.get("xc") or [0.0] * cfg["n"], dtype=float)
    s = cls(val, xc)
    if cfg.get("nodefer"):
        s.no_defer_trick = True
    if not cfg.get("par", True):
        s.helper.use_parallel_cut = False
    return s


def init_P(cfg):
    kind, val = cfg["init"]
    return np.diag(np.array(val, dtype=float)) if kind == "diag" else float(val) * np.eye(cfg["n"])


def observe(space, n):
    blob = pickle.dumps(space, protocol=5)
    loads = pickle.loads
    P = np.zeros((n, n))

    def width(g):
        c = loads(blob)
        try:
            st = c.update_central_cut((g, 0.0))
        except (ValueError, ZeroDivisionError, FloatingPointError):
            return float(c.tsq())
        if st.name == "NoEffect":        # exactly flat direction: tsq() is not refreshed
            return 0.0
        return float(c.tsq())

    eye = np.eye(n)
    for i in range(n):
        P[i, i] = width(eye[i].copy())
    for i in range(n):
        for j in range(i):
            P[i, j] = P[j, i] = 0.5 * (width(eye[i] + eye[j]) - P[i, i] - P[j, j])
    return Obs(np.array(space.xc(), dtype=float), P)


def probe(space, g):
    """Squared half-width of the space along g, read from a probing cut on a copy."""
    c = pickle.loads(pickle.dumps(space, protocol=5))
    try:
        st = c.update_central_cut((np.array(g, dtype=float), 0.0))
    except (ValueError, ZeroDivisionError, FloatingPointError):
        return float(c.tsq())
    return 0.0 if st.name == "NoEffect" else float(c.tsq())


def path_checked(P, g, tsq):
    g = np.asarray(g, dtype=float)
    return abs(halfwidth_sq(P, g) - tsq) <= (1e-10 + slack()) * float(g @ g) * max(float(np.trace(P)), 1e-300) * len(g)


def halfwidth_sq(P, g):
    g = np.asarray(g, dtype=float)
    return float(g @ P @ g)


def is_flat(P, g):
    g = np.asarray(g, dtype=float)
    return halfwidth_sq(P, g) <= 1e-11 * float(g @ g) * max(float(np.trace(P)), 1e-300)


def betas(op, tau):
    a = op["a"]
    if isinstance(a, (list, tuple)):
        return [float(x) * tau for x in a]
    return float(a) * tau


def apply(space, op, beta):
    """Returns (status name or None, exception or None)."""
    g = np.array(op["g"], dtype=float)
    try:
        st = getattr(space, UPD[op["k"]])((g, beta))
    except (AssertionError, ValueError) as e:
        return None, e
    return st.name, None


def region(op, par=True):
    """Kept slab lo <= t <= hi in units of the half-width along g (t = g.(x-xc)/tau)."""
    a = op["a"]
    pair = isinstance(a, (list, tuple))
    a0 = 0.0 if op["k"] == "central" else float(a[0] if pair else a)
    hi = -a0
    lo = -math.inf
    if pair and len(a) > 1 and par:
        lo = -float(a[1])
    return lo, hi


EPS = 1e-9
DEPTH = [0]


def slack():
    """Allowance for rounding errors, which a correct implementation may amplify geometrically along a history."""
    return min(1e-3, 1e-15 * 4.0 ** min(DEPTH[0], 50))


def expected_status(op, n, par=True, eps=EPS):
    """Allowed outcomes ('error' = rejected with an exception); several only at a boundary."""
    a = op["a"]
    pair = isinstance(a, (list, tuple)) and len(a) > 1 and par
    a0 = 0.0 if op["k"] == "central" else float(a[0] if isinstance(a, (list, tuple)) else a)

    def single(x):
        if op["k"] == "q":
            if abs(x - 1) < eps:
                return {"NoSoln", "Success"}
            if x > 1:
                return {"NoSoln"}
            if abs(1 + n * x) < eps * n:
                return {"NoEffect", "Success"}
            return {"NoEffect"} if 1 + n * x <= 0 else {"Success"}
        if abs(x) < eps and x < 0:
            return {"error", "Success"}
        if x < 0:
            return {"error"}
        if abs(x - 1) < eps:
            return {"NoSoln", "Success"}
        return {"NoSoln"} if x > 1 else {"Success"}

    if not pair:
        return single(a0)
    a1 = float(a[1])
    if op["k"] == "central":
        return {"NoSoln"} if a1 < 0 else {"Success"}
    if a1 < a0:
        return {"NoSoln"}

    def both():
        if abs(a1 + 1) < eps:
            return {"NoSoln", "Success"}
        if a1 < -1:
            return {"NoSoln"}
        e = 1 + n * a0 * a1
        if abs(e) < eps * n or (e == 0 and op["k"] != "q"):
            return {"NoEffect", "Success"}
        return {"NoEffect"} if e <= 0 else {"Success"}

    if abs(a1 - 1) < eps or a1 == 1:
        return single(a0) | both()
    if a1 > 1:
        return single(a0)
    return both()


# ------------------------------------------------------------------------------ containment
def _whiten(P, floor=1e-12):
    w, V = np.linalg.eigh((P + P.T) / 2)
    top = max(float(w[-1]), 1e-300)
    return w, V, top


def kept_contained(pre, g, lo, hi, post, tol_scale=1.0):
    """None if the ellipsoid `post` contains {x in pre : lo*tau <= g.(x-xc) <= hi*tau}; else a message.

    Decided on (a) the extreme points of the kept cap (rims, poles, meridians), exactly where the
    quadratic form of an enclosing ellipsoid is largest, and (b) support functions over a full set
    of directions, which also works for flat ellipsoids.
    """
    n = pre.n
    if not (np.all(np.isfinite(post.P)) and np.all(np.isfinite(post.xc))):
        return "new ellipsoid is not finite: xc=%s P=%s" % (post.xc, post.P.tolist())
    P = pre.P
    tau = math.sqrt(max(halfwidth_sq(P, g), 0.0))
    w, V, top = _whiten(P)
    flat = w[0] <= 1e-9 * top
    eps = 1e-6 if flat else 1e-12
    # floor the flat axes: whitening must not amplify rounding noise
    s = np.sqrt(np.maximum(w, eps * top))
    T = V * s                        # x - xc = T u
    Ti = (V / s).T                   # u = Ti (x - xc)
    e = Ti @ (P @ np.asarray(g, float)) / tau
    ne = np.linalg.norm(e)
    e = e / ne
    if flat:
        # work inside the face: u components along flat axes are ~0
        live = w > 1e-9 * top
    else:
        live = np.ones(n, bool)
    # rounding of the centre itself, in units of the smallest half-axis
    xnoise = 2e-15 * float(np.max(np.abs(pre.xc))) / float(np.min(s))
    if xnoise > 1e-3:
        return None
    lo_, hi_ = max(lo, -1.0), min(hi, 1.0)
    if lo_ > hi_:
        return None                  # nothing is kept
    # orthonormal basis of the live complement of e
    basis = []
    for k in range(n):
        if not live[k]:
            continue
        v = np.zeros(n)
        v[k] = 1.0
        v -= (v @ e) * e
        for b in basis:
            v -= (v @ b) * b
        nv = np.linalg.norm(v)
        if nv > 1e-3:
            basis.append(v / nv)
    c = Ti @ (post.xc - pre.xc)
    Q = Ti @ post.P @ Ti.T
    Q = (Q + Q.T) / 2
    qw, qV = np.linalg.eigh(Q)
    # extra directions: eigenvectors of Q made perpendicular to e
    ws = list(basis)
    for k in range(n):
        v = qV[:, k] * live
        v = v - (v @ e) * e
        nv = np.linalg.norm(v)
        if nv > 1e-2:
            ws.append(v / nv)
    if not ws:                       # the live face is one-dimensional
        ws = [np.zeros(n)]
    W = np.array(ws + [-b for b in ws])
    ts = np.unique(np.clip(np.concatenate([[lo_, hi_], np.linspace(lo_, hi_, 9)]), -1, 1))
    pts = (ts[:, None, None] * e[None, None, :]
           + np.sqrt(np.maximum(0.0, 1 - ts ** 2))[:, None, None] * W[None, :, :]).reshape(-1, n)
    if not flat and qw[0] > 1e-5 * max(qw[-1], 1e-300) and qw[0] > 0:
        d = pts - c
        y = d @ qV
        val = np.sum(y * y / qw, axis=1)
        k = int(np.argmax(val))
        tol = tol_scale * (2e-8 + slack() + 1e-14 / (qw[0] / qw[-1]) + 1e-13 * top / max(w[0], 1e-300) + 10 * xnoise)
        if val[k] > 1 + tol:
            x = pre.xc + T @ pts[k]
            return ("point %s of the old ellipsoid satisfies the cut but lies outside the new one "
                    "(form value %.12g > 1)" % (x.tolist(), val[k]))
        # fall through to the support test as well
    # support functions
    th = np.linspace(0, 2 * np.pi, 48, endpoint=False)
    D = (np.cos(th)[:, None, None] * e[None, None, :] + np.sin(th)[:, None, None] * np.array(ws)[None, :, :]).reshape(-1, n)
    a = D @ e
    b = np.sqrt(np.maximum(0.0, np.sum(D * D, axis=1) - a * a))
    t = np.clip(a / np.maximum(np.sqrt(a * a + b * b), 1e-300), lo_, hi_)
    hreg = a * t + b * np.sqrt(np.maximum(0.0, 1 - t * t))
    hnew = D @ c + np.sqrt(np.maximum(0.0, np.einsum("ij,jk,ik->i", D, Q, D)))
    k = int(np.argmax(hreg - hnew))
    tol = 1e-3 if flat else tol_scale * (3e-7 + slack() + 1e-13 * top / max(w[0], 1e-300) + 10 * xnoise)
    if hreg[k] - hnew[k] > tol:
        return ("kept part of the old ellipsoid sticks out of the new one by %.3g (relative) in direction %s"
                % (hreg[k] - hnew[k], (V / s @ D[k]).tolist()))
    return None


def log_volume_ratio(pre, post):
    """ln(vol(post)/vol(pre)); None if pre is too ill-conditioned to say, -inf if post is flat."""
    w, V, top = _whiten(pre.P)
    if w[0] <= 1e-8 * top:
        return None
    Ti = (V / np.sqrt(w)).T
    Q = Ti @ post.P @ Ti.T
    qw = np.linalg.eigvalsh((Q + Q.T) / 2)
    if qw[0] <= 1e-7 * max(qw[-1], 1e-300):
        return -math.inf
    return 0.5 * float(np.sum(np.log(qw)))


def min_log_volume(n, lo, hi):
    """ln of the volume (relative to the ball) of the smallest ellipsoid of the family
    |u|^2-1 + lam*(t-lo)(t-hi) <= 0, lam >= 0, which contains the slab [lo,hi] of the unit ball.
    For lo,hi in [-1,1] this is the minimum-volume enclosing ellipsoid. -inf for lo == hi."""
    if hi - lo < 1e-12:
        return -math.inf

    def f(sig):
        m = 0.5 * (lo + hi)
        R = 1 - lo * hi * sig / (1 - sig) + m * m * sig * sig / (1 - sig)
        if R <= 0:
            return math.inf
        return 0.5 * (n * math.log(R) + math.log(1 - sig))

    # coarse bracket then ternary search (f is unimodal in sigma on [0,1))
    grid = [i / 400 for i in range(400)] + [1 - 10 ** (-k / 4) for k in range(11, 40)]
    grid.sort()
    vals = [f(s) for s in grid]
    k = min(range(len(grid)), key=lambda i: vals[i])
    a = grid[max(0, k - 1)]
    b = grid[min(len(grid) - 1, k + 1)]
    for _ in range(100):
        c1, c2 = a + (b - a) / 3, b - (b - a) / 3
        if f(c1) <= f(c2):
            b = c2
        else:
            a = c1
    return min(f((a + b) / 2), vals[0])


# ------------------------------------------------------------------------------ alphabets
def gradients(n, which="full"):
    gs = [
        [1.0] + [0.0] * (n - 1),
        [1.0] * n,
        [0.0] * (n - 1) + [-1.0],
        [float((-1) ** i * (i + 1)) for i in range(n)],
        [0.0] + [1.0, -0.5] * n,
        [1e-2] + [3.0] * (n - 1),
        [2.0, -1.0] + [0.25] * n,
    ]
    gs = [g[:n] for g in gs]
    if which == "small":
        return gs[:4]
    if which == "tiny":
        return [gs[1], gs[3], gs[4]]
    return gs


def alphabet(n, level):
    """All (kind, offset) combinations; offsets in units of the current half-width."""
    inv = 1.0 / n
    out = []
    if level == "full":
        sb = [0.0, 1e-6, 0.1, 0.3, 0.5, 0.75, 0.9, 0.999, 1.0, 1.001, 1.5, 20.0, -0.2]
        sq = sb + [-0.05 * inv, -0.5 * inv, -0.9 * inv, -0.999 * inv, -inv, -1.01 * inv, -0.5, -1.0, -1.5]
        a0s = [-1.5, -1.0, -0.6, -0.9 * inv, -0.2, 0.0, 1e-3, 0.1, 0.45, 0.9, 1.0, 1.2]
        a1s = [-1.2, -1.0, -0.6, -0.1, 0.0, 1e-3, 0.05, 0.3, 0.45, 0.7, 0.95, 0.9999, 1.0, 1.2, 3.0]
        out += [("bias", a) for a in sb] + [("q", a) for a in sq] + [("central", 0.0)]
        out += [(k, [x, y]) for k in ("bias", "q") for x in a0s for y in a1s]
        out += [("central", [0.0, y]) for y in a1s]
        out += [("central", a) for a in (0.4, 1.5, -0.3, [0.3, 0.5], [-0.2, 0.6], [0.6, 0.2], [0.2, 1.4], [0.5, -0.1], [1.2, 0.3])]
    elif level == "mid":
        out += [("bias", a) for a in (0.0, 0.3, 0.9, 1.1, -0.1)]
        out += [("q", a) for a in (0.2, -0.6 * inv, -1.2 * inv, 1.1)]
        out += [("central", 0.0), ("central", [0.0, 0.4]), ("central", [0.0, 1.3]), ("central", [0.0, 0.0]), ("central", [0.0, -0.1]), ("central", 0.4), ("central", [0.3, 0.5])]
        out += [("bias", p) for p in ([0.1, 0.5], [0.0, 0.8], [0.2, 0.2], [0.3, 1.4], [0.5, 0.2], [-0.9, 0.9], [-0.2, 0.3])]
        out += [("q", p) for p in ([0.1, 0.5], [-0.3, 0.2], [-0.5, -0.1], [-0.9, 0.9], [-1.5, -1.1], [-0.4 * inv, 1.5], [0.0, 0.0], [-1.4, -0.3])]
    elif level == "small":
        out += [("bias", 0.0), ("bias", 0.4), ("q", -0.4 * inv), ("central", 0.0), ("central", [0.0, 0.5]),
                ("bias", [0.1, 0.6]), ("q", [-0.5, -0.1]), ("q", [-0.2, 0.3])]
    elif level == "tiny":
        out += [("bias", 0.3), ("central", 0.0), ("bias", [0.1, 0.5]), ("q", -0.3 * inv)]
    return out


def ops(n, glevel, alevel):
    return [{"k": k, "g": g, "a": a} for g in gradients(n, glevel) for k, a in alphabet(n, alevel)]


def start_single(cfg):
    space = make(cfg)
    return space, observe(space, cfg["n"])


def shape_after(cfg, path, k):
    """Observed shape (trace 1) after a history; k > 0: start and gradients perturbed in the last digits. None if a cut fails."""
    n = cfg["n"]
    i = np.arange(n)
    eps = 2.0 ** -51
    P = np.diag(init_P(cfg)) * (1 + (eps * ((7 * i + 3 * k) % 5 - 2) if k else 0.0))
    s = make(dict(cfg, init=["diag", P.tolist()]))
    for j, op in enumerate(path):
        g = np.array(op["g"], dtype=float) * (1 + (eps * ((5 * i + 3 * j + k) % 5 - 2) if k else 0.0))
        st, _ = apply(s, dict(op, g=g.tolist()), betas(op, math.sqrt(max(probe(s, g), 0.0))))
        if st != "Success":
            return None
    P = observe(s, n).P
    t = float(np.trace(P))
    return P / t if t > 0 and np.all(np.isfinite(P)) else None


def rounding_dominated(cfg, path):
    """Does the shape after this history change visibly when the input changes in the last digit?

    The history is closed-loop (offsets are multiples of the current half-width), so for a sound arrangement of the
    arithmetic the answer is no: differences stay below 1e-13 even after a hundred cuts.  An arrangement that does not
    keep the shape matrix exactly symmetric amplifies rounding errors; what it does beyond that point is not judged
    step by step (C12 and C22 judge complete searches)."""
    if len(path) < 6:
        return False
    a = shape_after(cfg, path, 0)
    for k in (1, 2, 3):
        b = shape_after(cfg, path, k)
        if (a is None) != (b is None) or a is not None and float(np.max(np.abs(a - b))) > 1e-10:
            return True
    return False


class Walker:
    """Depth-first exploration of all operation sequences described by a list of alphabets."""

    def __init__(self, cfg, rec, judge, start=None):
        self.cfg, self.rec, self.judge = cfg, rec, judge
        self.start = start or start_single
        self.n = cfg["n"]
        self.par = cfg.get("par", True)

    def step(self, space, pre, op, path):
        """Apply op to (a copy of) space; judge; return (space', post) or None if it did not succeed."""
        rec = self.rec
        DEPTH[0] = len(path)
        tsq = probe(space, op["g"])
        if not math.isfinite(tsq) or (tsq < 0 and not is_flat(pre.P, op["g"])):
            raise Violation("squared half-width along %s is %s" % (op["g"], tsq))
        if not path_checked(pre.P, op["g"], tsq):
            raise Violation("the half-widths along %s (%.12g) and along the axes contradict each other" % (op["g"], tsq))
        tau = math.sqrt(max(tsq, 0.0))
        beta = betas(op, tau)
        sp = pickle.loads(pickle.dumps(space, protocol=5))
        status, exc = apply(sp, op, beta)
        post = observe(sp, self.n)
        rec.step()
        rec.check()
        rec.outcome("%s/%s" % (op["k"], status or type(exc).__name__))
        self.judge(self.cfg, pre, op, tau, status, exc, post, sp)
        return (sp, post) if status == "Success" else None

    def variants(self):
        return [self.cfg]

    def guarded(self, space, pre, op, path):
        """step, except that a violation owed to amplified rounding errors ends the history instead."""
        try:
            return self.step(space, pre, op, path)
        except Violation:
            if any(rounding_dominated(c, path[:-1]) for c in self.variants()):
                self.rec.outcome("history ended: dominated by rounding")
                return None
            raise

    def explore(self, levels, prefix=(), space=None, pre=None):
        """Every sequence over levels[0] x levels[1] x ... following prefix."""
        rec = self.rec
        if space is None:
            space, pre = self.start(self.cfg)
            for i, op in enumerate(prefix):
                r = rec.run({"cfg": self.cfg, "path": list(prefix)}, self.guarded, space, pre, op, prefix[:i + 1])
                if r is None:
                    return
                space, pre = r
        self._rec(space, pre, list(prefix), levels, 0)

    def _rec(self, space, pre, path, levels, d):
        rec = self.rec
        for op in levels[d]:
            p = path + [op]
            r = rec.run({"cfg": self.cfg, "path": p}, self.guarded, space, pre, op, p)
            if d + 1 < len(levels):
                if r is not None:
                    rec.state((np.round(r[1].xc, 9).tolist(), np.round(r[1].P, 9).tolist(), self.cfg["cls"]))
                    self._rec(r[0], r[1], p, levels, d + 1)
                else:
                    rec.trace()
            else:
                rec.trace()
                if r is not None:
                    rec.state((np.round(r[1].xc, 9).tolist(), np.round(r[1].P, 9).tolist(), self.cfg["cls"]))
                rec.sample({"cfg": self.cfg, "path": p, "result": "applied" if r else "not applied"})

    def lasso(self, word, length, max_cond=1e9):
        """Repeat a word of operations; stop when the ellipsoid degenerates numerically."""
        rec = self.rec
        space, pre = self.start(self.cfg)
        path = []
        for i in range(length):
            op = word[i % len(word)]
            path.append(op)
            r = rec.run({"cfg": self.cfg, "path": list(path)}, self.guarded, space, pre, op, path)
            if r is None:
                break
            space, pre = r
            rec.state((np.round(pre.xc, 9).tolist(), [float("%.9g" % v) for v in pre.P.ravel()], self.cfg["cls"]))
            w = np.linalg.eigvalsh(pre.P)
            if w[0] <= 0 or w[-1] / w[0] > max_cond:
                break
        rec.trace()


def replay_path(case, rec, judge, walker=Walker, start=None):
    w = walker(case["cfg"], rec, judge, start)
    space, pre = w.start(case["cfg"])
    for i, op in enumerate(case["path"]):
        r = w.guarded(space, pre, op, case["path"][:i + 1])
        if r is None:
            return
        space, pre = r


def rounds(n):
    """Words that visit every axis (and skewed directions), one per kind of cut."""
    eye = np.eye(n)
    dirs = [eye[i].tolist() for i in range(n)]
    skew = [(eye[i] + 0.5 * eye[(i + 1) % n] - 0.25 * eye[(i + 2) % n]).tolist() for i in range(n)]
    out = []
    for kind, a in (("central", 0.0), ("bias", 0.6), ("bias", [0.1, 0.6]), ("q", [-0.2, 0.3]), ("central", [0.0, 0.3])):
        out.append([{"k": kind, "g": [(-1) ** i * v for v in g], "a": a} for i, g in enumerate(dirs)])
        out.append([{"k": kind, "g": [(-1) ** i * v for v in g], "a": a} for i, g in enumerate(skew)])
    out.append([{"k": ("central", "bias", "q")[i % 3], "g": g, "a": (0.0, 0.5, [-0.1, 0.4])[i % 3]} for i, g in enumerate(dirs + skew)])
    return out


def dense(n):
    """Words of cuts whose gradients have all entries different from zero."""
    r = np.arange(n)
    dirs = [np.ones(n), r - 0.45 * n, np.cos(r), np.sin(2 * r + 1), 1.0 / (r + 1)]
    kinds = [[("central", 0.0), ("bias", 0.2), ("q", -0.3 / n), ("bias", [0.1, 0.5])],
             [("bias", [0.05, 0.4]), ("central", [0.0, 0.5]), ("q", [-0.2, 0.3]), ("bias", 0.4)],
             [("q", [-0.5, -0.1]), ("bias", 0.0), ("central", 0.0)]]
    return [[{"k": ks[i % len(ks)][0], "g": d.tolist(), "a": ks[i % len(ks)][1]} for i, d in enumerate(dirs)] for ks in kinds]


def base_cfgs(n, tier="quick", cls=None, full=False):
    diag = [float(i + 1) ** 1.5 for i in range(n)]
    xc = [0.5 * (-1) ** i * i for i in range(n)]
    out = []
    for c in ("Ell", "EllStable"):
        out.append({"cls": c, "n": n, "init": ["scalar", 4.0], "nodefer": False})
        out.append({"cls": c, "n": n, "init": ["diag", diag], "xc": xc, "nodefer": True})
        if full:
            out.append({"cls": c, "n": n, "init": ["scalar", 4.0], "nodefer": True})
            out.append({"cls": c, "n": n, "init": ["diag", diag], "xc": xc, "nodefer": False})
    if cls:
        out = [o for o in out if o["cls"] == cls]
    return out


def history_shards(tier, cls=None):
    """The bounded space explored by C01-C05, as a list of shards."""
    sh = []
    big = tier == "thorough"

    def cfgs(n, full=False):
        return base_cfgs(n, tier, cls, full or big)

    for n in ([2, 3, 4, 5, 7, 10] if not big else [2, 3, 4, 5, 6, 7, 8, 10, 13, 16]):
        for cfg in cfgs(n, n == 3):
            # A: every cut of the full alphabet as a first update
            for g in range(len(gradients(n, "full" if n <= 5 else "small"))):
                sh.append({"kind": "A", "cfg": cfg, "g": g, "lvl": "full" if n <= 5 or big else "mid"})
    for n in ([2, 3, 5, 8, 12] if not big else [2, 3, 4, 5, 8, 12, 17, 24]):
        for cfg in cfgs(n):
            # M: magnitudes, parallel cuts disabled
            for kappa in ((1e-8, 1e7) if not big else (1e-14, 1e-8, 1e-3, 1e3, 1e7, 1e12)):
                sh.append({"kind": "M", "cfg": dict(cfg, init=["scalar", kappa])})
            sh.append({"kind": "M", "cfg": dict(cfg, par=False)})
            if n <= (3 if not big else 8):
                # S: every pair of cuts at extreme magnitudes
                for kappa in (1e-13, 1e12) if not big else (1e-18, 1e-13, 1e12, 1e18):
                    sh.append({"kind": "S", "cfg": dict(cfg, init=["scalar", kappa])})
            # K: long rounds of cuts over all axes and diagonals, which keep the ellipsoid round while it shrinks
            if n <= (5 if not big else 8):
                sh.append({"kind": "K", "cfg": cfg, "len": (120 if n <= 3 else 60) if not big else 200})
    for n in ((10, 12, 20) if not big else (9, 10, 12, 16, 20, 26, 34, 40)):
        for cfg in cfgs(n):
            # H: short histories of dense cuts in high dimensions
            sh.append({"kind": "H", "cfg": cfg, "len": 4 if not big else 8})
    if not big:
        sh += [{"kind": "H", "cfg": cfg, "len": 2} for cfg in cfgs(36)]
    for n in ((2, 3, 5) if not big else (2, 3, 4, 5, 8)):
        for cfg in cfgs(n):
            # T: pairs of planes that nearly coincide
            sh.append({"kind": "T", "cfg": cfg})
    for n in (2, 3):
        for cfg in cfgs(n):
            if cfg["init"][0] == "diag":
                # M again: small and large ellipsoids that are no balls
                sh += [{"kind": "M", "cfg": dict(cfg, init=["diag", [f * v for v in cfg["init"][1]]])} for f in (1e-11, 1e-5, 1e10)]
            # V: rounds of central or very deep cuts until the volume is far below anything representable relative to the start
            sh.append({"kind": "V", "cfg": cfg, "len": 400 if n == 2 or big else 150})
    for n in ((2, 3) if not big else (2, 3, 5)):
        for cfg in cfgs(n):
            # W: very long histories of shallow cuts (nothing may depend on how many updates there were)
            sh.append({"kind": "W", "cfg": cfg, "len": (1100 if n == 2 else 300) if not big else 3000})
    for n in ((2, 3, 4) if not big else (2, 3, 4, 5, 6)):
        for cfg in cfgs(n):
            # B: every cut of the mid alphabet after every first update of the small alphabet
            for op in ops(n, "small" if big else "tiny", "small"):
                sh.append({"kind": "B", "cfg": cfg, "first": op, "lvl": "full" if big else "mid"})
    for n in ((2, 3) if not big else (2, 3, 4)):
        for cfg in cfgs(n):
            # C: all triples (quadruples) over the tiny alphabet
            for op in ops(n, "tiny", "tiny"):
                sh.append({"kind": "C", "cfg": cfg, "first": op, "depth": 3 if not big else 4})
    for n in ((2, 3, 5, 8) if not big else (2, 3, 4, 5, 8, 12)):
        for cfg in cfgs(n, n == 3):
            # L: words of length 1 and 2 repeated
            for k in range(8):
                sh.append({"kind": "L", "cfg": cfg, "k": k, "of": 8, "len": 50 if not big else 200})
    for n in ((2, 3, 4) if not big else (2, 3, 4, 5, 6)):
        for cfg in cfgs(n):
            # F: flat ellipsoids left by equality cuts
            sh.append({"kind": "F", "cfg": cfg})
    sh.sort(key=lambda s: (s["kind"] not in "KWHV", -s["cfg"]["n"]))
    return sh


def explore_shard(shard, rec, judge, walker=Walker, start=None):
    cfg = shard["cfg"]
    n = cfg["n"]
    w = walker(cfg, rec, judge, start)
    k = shard["kind"]
    if k == "A":
        gs = gradients(n, "full" if n <= 5 else "small")
        w.explore([[{"k": kk, "g": gs[shard["g"]], "a": a} for kk, a in alphabet(n, shard["lvl"])]])
    elif k == "M":
        w.explore([ops(n, "tiny", "mid")])
        for sc in (1e-28, 1e-10, 1e-5, 1e4, 1e9, 1e25):
            w.explore([[dict(o, g=[sc * v for v in o["g"]]) for o in ops(n, "tiny", "small")]])
    elif k == "B":
        w.explore([ops(n, "tiny", shard["lvl"])], prefix=[shard["first"]])
    elif k == "C":
        small = ops(n, "tiny", "tiny")
        w.explore([small] * (shard["depth"] - 1), prefix=[shard["first"]])
    elif k == "S":
        w.explore([ops(n, "tiny", "tiny"), ops(n, "tiny", "small")])
    elif k == "K":
        for cyc in rounds(n):
            w.lasso(cyc, shard["len"])
    elif k == "T":
        pairs = [[x, x + w] for x in (-0.4, 0.0, 0.2, 0.7) for w in (1e-3, 1e-5, 2e-6, 4e-7)]
        for g in gradients(n, "tiny"):
            w.explore([[{"k": kk, "g": g, "a": a} for kk in ("bias", "q") for a in pairs if kk == "q" or a[0] >= 0]
                       + [{"k": "central", "g": g, "a": [0.0, v]} for v in (1e-3, 1e-5, 2e-6, 4e-7)]])
    elif k == "V":
        # (very deep cuts amplify rounding differences between two spaces, so they are left to the checks of single updates)
        for cyc, deep in ((rounds(n)[0], 0), (rounds(n)[1], 0)) + (((rounds(n)[0], 1),) if shard.get("deep", True) else ()):
            w.lasso([dict(o, k="bias", a=0.97) if deep else o for o in cyc], shard["len"] if not deep else 45)
    elif k == "H":
        for cyc in dense(n)[: (2 if rec.tier == "quick" and n > 12 else None)]:
            w.lasso(cyc, shard["len"])
    elif k == "W":
        for i, cyc in enumerate(rounds(n)[:2] if rec.tier == "thorough" else rounds(n)[1:2]):
            w.lasso([dict(o, k="q", a=-0.9 / n) for o in cyc], shard["len"])
    elif k == "L":
        al = [o for o in ops(n, "small", "small")]
        words = [[a] for a in al] + [[a, b] for i, a in enumerate(al) for b in al[i + 1::5]]
        for word in words[shard["k"]::shard["of"]]:
            w.lasso(word, shard["len"])
    elif k == "F":
        eq = [("bias", [0.0, 0.0]), ("bias", [0.3, 0.3]), ("q", [-0.4, -0.4]), ("central", [0.0, 0.0])]
        firsts = [{"k": kk, "g": g, "a": a} for g in gradients(n, "full") for kk, a in eq]
        for f in firsts:
            seconds = [{"k": f2, "g": g, "a": a} for g in [f["g"]] + gradients(n, "tiny")
                       for f2, a in alphabet(n, "small") + [("bias", [0.2, 0.2]), ("q", [-0.1, -0.1])]]
            w.explore([seconds], prefix=[f])


def reuse_words(n):
    gs = gradients(n, "tiny")
    al = [("bias", 0.3), ("bias", 2.0), ("bias", -0.2), ("q", -2.0), ("q", [0.1, 0.6]), ("bias", [0.5, 0.2]), ("central", [0.0, 0.4])]
    one = [{"k": k, "g": gs[(i + j) % 3], "a": a} for i, (k, a) in enumerate(al) for j in (0, 1)]
    return [[a, b, c] for a in one for b in one for c in one[::2]]


def reuse(cfg, word, rec):
    """The caller keeps one gradient array and one offset list and moves them in place: same as with fresh ones."""
    n = cfg["n"]
    buf, lst = np.zeros(n), [0.0, 0.0]
    cut = (buf, lst)
    a, b = make(cfg), make(cfg)
    for i, op in enumerate(word):
        beta = betas(op, 1.0 + 0.25 * i)
        buf[:] = op["g"]
        if isinstance(beta, list):
            lst[:] = beta
        try:
            sb = getattr(b, UPD[op["k"]])(cut if isinstance(beta, list) else (buf, beta)).name
        except (AssertionError, ValueError):
            sb = "error"
        sa = apply(a, op, beta)[0] or "error"
        rec.step(2)
        rec.check()
        if sa != sb:
            raise Violation("update %d of %s reports %s when the caller reuses its arrays, %s with fresh ones" % (i + 1, word, sb, sa))
        ta, tb = float(a.tsq()), float(b.tsq())
        if abs(ta - tb) > 1e-9 * max(ta, tb) or np.max(np.abs(np.asarray(a.xc()) - np.asarray(b.xc()))) > 1e-9 * (1.0 + np.max(np.abs(a.xc()))):
            raise Violation("update %d of %s gives tsq %.12g, centre %s when the caller reuses its arrays, %.12g, %s with fresh ones"
                            % (i + 1, word, tb, np.asarray(b.xc()).tolist(), ta, np.asarray(a.xc()).tolist()))
    oa, ob = observe(a, n), observe(b, n)
    if np.max(np.abs(oa.P - ob.P)) > 1e-9 * np.max(np.abs(oa.P)):
        raise Violation("after %s the ellipsoid depends on whether the caller reuses its arrays" % (word,))
