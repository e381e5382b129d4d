"""Actors for C20: deterministic little programs over library objects, one observable step at a time.

Each actor is a generator function taking an Env and yielding an observation after every operation.  Caller-owned data comes
from the Env, where it is shared between all actors of a run and watched, as is everything an operation returned."""
import numpy as np

from .core import Violation


def freeze(v):
    """Exact, comparable image of a value."""
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, np.ndarray):
        return ("a", v.shape, v.astype(float).tobytes())
    if isinstance(v, (int, float, np.integer, np.floating, np.bool_)):
        return float(v).hex()
    if isinstance(v, (list, tuple)):
        return tuple(freeze(t) for t in v)
    if hasattr(v, "name") and hasattr(v, "value"):
        return v.name
    if hasattr(v, "__dict__"):
        return tuple((k, freeze(t)) for k, t in sorted(vars(v).items()))
    return repr(v)


class Env:
    """Caller data shared by the actors of one run, and everything handed out, all watched for later changes."""

    def __init__(self):
        self.data = {}
        self.watch = []

    def arr(self, key, *vals, dtype=float):
        if key not in self.data:
            self.data[key] = np.array(vals if not (len(vals) == 1 and isinstance(vals[0], list)) else vals[0], dtype=dtype)
            self.keep("input " + key, self.data[key])
        return self.data[key]

    def obj(self, key, make):
        if key not in self.data:
            self.data[key] = make()
            self.keep("input " + key, self.data[key])
        return self.data[key]

    def keep(self, what, v):
        """Watch a value; returns it."""
        if isinstance(v, (np.ndarray, list, tuple)) or (hasattr(v, "__dict__") and not callable(v)):
            self.watch.append((what, v, freeze(v)))
        return v

    def verify(self, when):
        for what, v, f in self.watch:
            if freeze(v) != f:
                raise Violation("%s was changed %s" % (what, when))


# ---------------------------------------------------------------------------------------------- search spaces
def space(cls, n, defer=True, parallel=True, diag=False):
    def run(env, ops):
        from ellalgo.ell import Ell
        from ellalgo.ell_stable import EllStable

        C = Ell if cls == "ell" else EllStable
        x0 = env.arr("x0_%d" % n, *[0.5 - i for i in range(n)])
        val = env.arr("val_%d" % n, *[4.0 - i for i in range(n)]) if diag else 9.0
        s = C(val, x0)
        if not defer:
            s.no_defer_trick = True
        if not parallel:
            s.helper.use_parallel_cut = False
        for kind, g, b in ops:
            gv = env.arr("g_%d_%s" % (n, g), *[(1.0, -0.5, 0.25, 2.0)[(i + g) % 4] for i in range(n)])
            bv = env.obj("b_%s" % (b,), lambda b=b: list(b)) if isinstance(b, tuple) else b
            if kind == "set":
                s.set_xc(env.arr("set_%d_%d" % (n, g), *[0.25 * g + 0.1 * i for i in range(n)]))
                st = None
            else:
                st = getattr(s, "update_" + kind)((gv, bv))
            x = env.keep("centre returned earlier", s.xc())
            yield (st, x.copy(), s.tsq())

    return run


MIX1 = [("bias_cut", 0, 0.25), ("central_cut", 1, 0.0), ("bias_cut", 2, (0.1, 0.9)), ("q", 1, (-0.2, 0.7))]
MIX2 = [("central_cut", 2, (0.0, 0.5)), ("set", 3, 0), ("q", 0, -0.1), ("bias_cut", 3, (-0.1, 0.6))]
MIX3 = [("bias_cut", 1, (0.05, 50.0)), ("bias_cut", 1, 99.0), ("q", 2, (-0.5, 0.1)), ("central_cut", 0, (0.0, 0.05))]


def sp(cls, n, ops, **kw):
    return lambda env: space(cls, n, **kw)(env, ops)


# ---------------------------------------------------------------------------------------------- calculators
def calc(n):
    def run(env):
        from ellalgo.ell_calc import EllCalc

        c = EllCalc(n)
        b = env.obj("bb", lambda: [0.11, 0.51])
        yield env.keep("result", c.calc_single_or_parallel(b, 0.4))
        yield env.keep("result", c.calc_single_or_parallel_central_cut(env.obj("bc", lambda: [0.0, 0.3]), 0.4))
        yield env.keep("result", c.calc_single_or_parallel_q(-0.05, 0.4))
        yield env.keep("result", c.calc_single_or_parallel_q(b, 0.4))

    return run


def core(n):
    def run(env):
        from ellalgo.ell_calc_core import EllCalcCore

        c = EllCalcCore(n)
        yield env.keep("result", c.calc_parallel_bias_cut(0.05, 0.4, 0.3))
        yield env.keep("result", c.calc_bias_cut(0.1, 0.6))
        yield env.keep("result", c.calc_central_cut(0.6))
        yield env.keep("result", c.calc_parallel_central_cut(0.3, 0.36))

    return run


# ---------------------------------------------------------------------------------------------- factorization
MATS = {
    "pd": [[4.0, 1.0, 0.5], [1.0, 3.0, -1.0], [0.5, -1.0, 2.0]],
    "ind": [[1.0, 2.0, 0.0], [2.0, 1.0, 1.0], [0.0, 1.0, 5.0]],
    "neg": [[-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    "late": [[1.0, 0.5, 2.0], [0.5, 2.0, 0.0], [2.0, 0.0, 1.0]],
}


def ldlt(order):
    def run(env):
        from ellalgo.oracles.ldlt_mgr import LDLTMgr

        m = LDLTMgr(3)
        Q = env.arr("Q", MATS["pd"])
        for k in order:
            A = env.arr("mat_" + k, MATS[k])
            ok = m.factorize(A) if k in ("pd", "late") else m.factor(lambda i, j: A[i, j])
            yield (ok, m.is_spd(), tuple(m.pos))
            if ok:
                yield env.keep("square root returned earlier", m.sqrt())
            else:
                ep = m.witness()
                yield (ep, np.array(m.wit[m.pos[0]:m.pos[1]]), m.sym_quad(Q))

    return run


# ---------------------------------------------------------------------------------------------- oracles
def lmi(kind, xs):
    def run(env):
        from ellalgo.oracles.lmi0_oracle import LMI0Oracle
        from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
        from ellalgo.oracles.lmi_oracle import LMIOracle

        F = env.obj("F", lambda: [np.array(MATS["late"]), np.array(MATS["ind"])])
        B = env.arr("mat_pd", MATS["pd"])
        o = {"lazy": lambda: LMIOracle(F, B), "old": lambda: LMIOldOracle(F, B), "zero": lambda: LMI0Oracle(F)}[kind]()
        for i, x in enumerate(xs):
            c = env.keep("cut returned earlier", o.assess_feas(env.arr("lx_%s" % (x,), *x)))
            yield c

    return run


def profit(kind, seq):
    def run(env):
        from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle

        par = (20.0, 40.0, 30.5)
        el, v = env.arr("el", 0.1, 0.4), env.arr("pv", 10.0, 35.0)
        o = {"plain": lambda: ProfitOracle(par, el, v), "rb": lambda: ProfitRbOracle(par, el, v, (0.01, 0.02, 0.5, 0.5, 1.0)),
             "q": lambda: ProfitQOracle(par, el, v)}[kind]()
        gamma = 0.0
        for x in seq:
            xv = env.arr("px_%s" % (x,), *x)
            r = o.assess_optim_q(xv, gamma, False) if kind == "q" else o.assess_optim(xv, gamma)
            env.keep("answer returned earlier", r)
            new = r[2] if kind == "q" else r[1]
            gamma = gamma if new is None else float(new)
            yield r

    return run


def lowpass(n, seq):
    def run(env):
        from ellalgo.oracles.lowpass_oracle import LowpassOracle

        o = LowpassOracle(n, 0.2, 0.63, 0.8, 1.2, 0.5)
        for x, gamma in seq:
            xv = env.arr("lp_%d_%s" % (n, x), *(list(x) + [0.0] * (n - 2)))
            r = o.assess_feas(xv) if gamma is None else o.assess_optim(xv, gamma)
            yield env.keep("answer returned earlier", r)

    return run


# ---------------------------------------------------------------------------------------------- solvers and searches
def cg(env):
    from ellalgo.conjugate_gradient import conjugate_gradient

    A, b, x0 = env.arr("mat_pd", MATS["pd"]), env.arr("cgb", 1.0, -2.0, 0.5), env.arr("cgx", 1.0, 1.0, 1.0)
    yield env.keep("solution returned earlier", conjugate_gradient(A, b))
    yield env.keep("solution returned earlier", conjugate_gradient(A, b, x0))
    yield env.keep("solution returned earlier", conjugate_gradient(A, b, x0, 10.0))


def spectral(env):
    from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact

    r, h = env.arr("sr", 3.0, 1.0, 0.25), env.arr("sh", 1.0, 0.5, -0.2)
    yield env.keep("factor returned earlier", spectral_fact(r))
    yield env.keep("autocorrelation returned earlier", inverse_spectral_fact(h))
    yield env.keep("factor returned earlier", spectral_fact(env.data["sh"] * 0 + np.array([2.0, -0.5, 0.1])))


def opts(env, key, n, tol):
    from ellalgo.ell_config import Options

    def make():
        o = Options()
        o.max_iters, o.tolerance = n, tol
        return o

    return env.obj("options " + key, make)


def search(kind, cls):
    def run(env):
        from ellalgo import cutting_plane as cp
        from ellalgo.ell import Ell
        from ellalgo.ell_stable import EllStable
        from ellalgo.oracles.lmi_oracle import LMIOracle
        from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle

        C = Ell if cls == "ell" else EllStable
        el, v = env.arr("el", 0.1, 0.4), env.arr("pv", 10.0, 35.0)
        x0 = env.arr("s0", 0.0, 0.0)
        if kind == "feas":
            F = env.obj("F2", lambda: [np.array([[-7.0, -11.0], [-11.0, 3.0]]), np.array([[7.0, -18.0], [-18.0, 8.0]])])
            B = env.arr("B2", [[33.0, -9.0], [-9.0, -26.0]])
            s = C(10.0, x0)
            x, k = cp.cutting_plane_feas(LMIOracle(F, B), s, opts(env, "f", 12, 1e-8))
            env.keep("solution returned earlier", x)
            yield (x, k)
            s.update_central_cut((env.arr("sg", 1.0, 0.5), 0.0))
            yield (s.xc().copy(), s.tsq())
        elif kind == "optim":
            s = C(100.0, x0)
            x, g, k = cp.cutting_plane_optim(ProfitOracle((20.0, 40.0, 30.5), el, v), s, 0.0, opts(env, "o", 6, 1e-8))
            env.keep("solution returned earlier", x)
            yield (x, g, k)
            # the same space goes on being used: the solution stays
            s.update_bias_cut((env.arr("sg", 1.0, 0.5), 0.0))
            yield (s.xc().copy(), s.tsq())
        elif kind == "optim_q":
            s = C(100.0, x0)
            om = ProfitQOracle((20.0, 40.0, 30.5), el, v)
            x, g, k = cp.cutting_plane_optim_q(om, s, 0.0, opts(env, "q", 8, 1e-8))
            env.keep("solution returned earlier", x)
            yield (x, g, k)
            r = om.assess_optim_q(env.arr("qx", 1.0, 2.0), 0.0, False)
            env.keep("answer returned earlier", r)
            yield r
        else:
            class Om:
                """find x with x0 + x1 <= g, x >= 0"""

                def __init__(self):
                    self.g = 0.0

                def update(self, g):
                    self.g = g

                def assess_feas(self, x):
                    if x[0] < 0:
                        return np.array([-1.0, 0.0]), -x[0]
                    if x[1] < 0.3:
                        return np.array([0.0, -1.0]), 0.3 - x[1]
                    if x[0] + x[1] > self.g:
                        return np.array([1.0, 1.0]), x[0] + x[1] - self.g
                    return None

            s = C(4.0, x0)
            a = cp.BSearchAdaptor(Om(), s, opts(env, "a", 12, 1e-6))
            env.obj("interval", lambda: [0.0, 2.0])
            u, k = cp.bsearch(a, (0.0, 2.0), opts(env, "b", 3, 1e-3))
            x = env.keep("best point returned earlier", a.x_best)
            yield (u, k, x.copy())
            yield (a.assess_bs(1.0), a.x_best.copy())

    return run


ACTORS = {
    "ell2": sp("ell", 2, MIX1, diag=True),
    "ell3": sp("ell", 3, MIX2, defer=False),
    "ell2n": sp("ell", 2, MIX3, parallel=False),
    "ell4": sp("ell", 4, MIX3),
    "st2": sp("st", 2, MIX1, diag=True),
    "st3": sp("st", 3, MIX2, defer=False),
    "st4": sp("st", 4, MIX3, parallel=False),
    "ell10": sp("ell", 10, MIX1),
    "st9": sp("st", 9, MIX1[:2]),
    "ell18": sp("ell", 18, MIX2[:2]),
    "calc2": calc(2), "calc3": calc(3), "calc34": calc(34),
    "core2": core(2), "core5": core(5),
    "ldlt_a": ldlt(["pd", "ind"]), "ldlt_b": ldlt(["late", "neg"]),
    "lmi": lmi("lazy", [(0.0, 0.0), (1.0, 1.0), (3.0, -1.0)]),
    "lmi_old": lmi("old", [(2.0, 0.5), (0.0, 0.0), (-1.0, 2.0)]),
    "lmi0": lmi("zero", [(1.0, 0.0), (0.5, -1.0), (-1.0, 1.0)]),
    "profit": profit("plain", [(0.0, 0.0), (4.0, 1.0), (1.0, 3.0), (0.5, 0.5)]),
    "profit_rb": profit("rb", [(0.5, 0.0), (-1.0, 1.0), (4.0, 4.0), (1.0, 2.0)]),
    "profit_q": profit("q", [(0.6, 0.3), (3.0, 2.2), (1.2, 2.9), (4.0, 0.0)]),
    "low2": lowpass(2, [((0.5, 0.25), 0.5), ((0.9, 0.25), None), ((0.5, 0.25), 0.4), ((0.2, 0.1), None)]),
    "low3": lowpass(3, [((0.5, 0.25), None), ((0.55, 0.25), 0.6), ((-0.1, 0.4), None), ((0.45, 0.27), 0.5)]),
    "cg": cg, "spectral": spectral,
    "feas": search("feas", "ell"), "optim": search("optim", "ell"), "optim_q": search("optim_q", "ell"), "bs": search("bs", "ell"),
    "feas_st": search("feas", "st"), "optim_st": search("optim", "st"), "bs_st": search("bs", "st"),
}
FAMILY = [
    ["ell2", "ell3", "ell2n", "ell4", "st2", "st3", "st4", "ell10", "calc2", "calc3", "calc34", "core2", "core5", "feas", "optim", "optim_q", "bs"],
    ["ldlt_a", "ldlt_b", "lmi", "lmi_old", "lmi0", "feas"],
    ["profit", "profit_rb", "profit_q", "optim", "optim_q"],
    ["low2", "low3"],
    ["cg", "spectral"],
]


def steps(name, env):
    """Generator of observations of one actor; an error ends it and is an observation."""
    try:
        for o in ACTORS[name](env):
            yield freeze(o)
    except Violation:
        raise
    except Exception as e:  # the same error must come in every schedule
        yield ("error", type(e).__name__, str(e))
