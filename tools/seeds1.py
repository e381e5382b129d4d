"""First batch of planted bugs (written from the property texts and the code)."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-q-pair-clamped", "C01",
    [("ell_calc.py", "            return self.calc_bias_cut_q(beta0, tsq)\n        if beta1 < 0.0",
      "            return self.calc_bias_cut_q(max(beta0, 0.0), tsq)\n        if beta1 < 0.0")],
    "a quantized update with a parallel pair whose first offset is negative and whose second plane lies outside the ellipsoid",
    "allowed points between the first plane and the centre plane are discarded",
    """
import numpy as np
from ellalgo.ell import Ell
e = Ell(1.0, np.zeros(2))
e.update_q((np.array([1.0, 0.0]), (-0.2, 5.0)))
P = e._kappa * e._mq
d = np.array([0.19, 0.98]) - e.xc()
assert d @ np.linalg.solve(P, d) <= 1 + 1e-9
""")

bug("c01-stable-tail", "C01",
    [("ell_stable.py", "            for j in range(i, self._ndim):\n                g_t[i - 1]",
      "            for j in range(i, min(i + 4, self._ndim)):\n                g_t[i - 1]")],
    "the stable search space in dimension 6 or more, after at least one earlier cut with a dense gradient",
    "the centre moves in a wrong direction, so allowed points are lost",
    """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
n = 7
a, b = Ell(1.0, np.zeros(n)), EllStable(1.0, np.zeros(n))
for k in range(3):
    g = np.array([1.0 + ((i * (k + 2)) % 5) for i in range(n)])
    for s in (a, b):
        s.update_bias_cut((g, 0.05))
assert np.allclose(a.xc(), b.xc(), atol=1e-9)
""")

bug("c02-kappa-floor", "C02",
    [("ell.py", "        self._kappa *= delta\n", "        self._kappa = max(self._kappa * delta, 1e-5)\n")],
    "a history of several very deep cuts that drives the scale factor below 1e-5",
    "a successful deep cut no longer shrinks the ellipsoid as promised",
    """
import numpy as np
from ellalgo.ell import Ell
e = Ell(1.0, np.zeros(2))
v = lambda: np.linalg.det(e._kappa * e._mq)
for k in range(8):
    g = np.array([1.0, 0.0]) if k % 2 else np.array([0.0, 1.0])
    tau = np.sqrt(g @ (e._kappa * e._mq) @ g)
    v0 = v()
    e.update_bias_cut((g, 0.97 * tau))
    a = 0.97
    want = (4/3*(1-a*a))**2 * (1 - 2/3*(1+2*a)/(1+a))
    assert abs(v() / v0 / want - 1) < 1e-3, (k, v() / v0, want)
""")

bug("c02-near-tangent-clamp", "C02",
    [("ell_calc.py", "        tau = sqrt(tsq)\n        return (\n            CutStatus.Success,\n            self.helper.calc_bias_cut(beta, tau),",
      "        tau = sqrt(tsq)\n        beta = min(beta, 0.97 * tau)  # keep some volume\n        return (\n            CutStatus.Success,\n            self.helper.calc_bias_cut(beta, tau),")],
    "a bias cut deeper than 97% of the half-width",
    "the new ellipsoid is much larger than the smallest one enclosing the kept cap",
    """
import numpy as np
from ellalgo.ell import Ell
e = Ell(1.0, np.zeros(2))
e.update_bias_cut((np.array([1.0, 0.0]), 0.99))
P = e._kappa * e._mq
a = 0.99
want = (2/3*(1-a))**2 * (4/3*(1-a*a))   # det of the minimum-volume ellipse of the cap, n = 2
r = (1 - a) * 2/3 / 1.0
det = (4/3*(1-a*a))**2 * (1 - 2/3*(1+2*a)/(1+a))
assert np.linalg.det(P) <= det * 1.0001
""")

bug("c03-central-equality", "C03",
    [("ell_calc.py", "        if b1 < 0.0:\n", "        if b1 <= 0.0:\n")],
    "a central update with a parallel pair whose second offset is exactly zero (an equality cut through the centre)",
    "'no solution' is reported although the whole hyperplane section remains",
    """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_config import CutStatus
e = Ell(1.0, np.zeros(3))
assert e.update_central_cut((np.array([1.0, 0.0, 0.0]), (0.0, 0.0))) == CutStatus.Success
""")

bug("c03-tsq-on-success", "C03",
    [("ell.py", "        self._tsq = self._kappa * omega\n", "        tsq = self._kappa * omega\n"),
     ("ell.py", "        status, result = cut_strategy(beta, self._tsq)\n", "        status, result = cut_strategy(beta, tsq)\n"),
     ("ell.py", "        rho, sigma, delta = result\n", "        self._tsq = tsq\n        rho, sigma, delta = result\n")],
    "an update that fails, after an earlier one with another gradient",
    "tsq reports the width of an older cut",
    """
import numpy as np
from ellalgo.ell import Ell
e = Ell(1.0, np.zeros(2))
e.update_central_cut((np.array([1.0, 0.0]), 0.0))
w = e._kappa * e._mq
g = np.array([0.0, 3.0])
e.update_bias_cut((g, 100.0))
assert abs(e.tsq() - g @ w @ g) < 1e-9
""")

bug("c03-q-tangent", "C03",
    [("ell_calc.py", "        if tau < beta:\n", "        if tau <= beta:\n")],
    "a quantized single cut exactly tangent to the ellipsoid",
    "'no solution' is reported although the tangent point satisfies the cut",
    """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_config import CutStatus
e = Ell(4.0, np.zeros(2))
assert e.update_q((np.array([1.0, 0.0]), 2.0)) == CutStatus.Success
""")

bug("c04-stable-first-tsq", "C04",
    [("ell_stable.py", "        self._tsq = self._kappa * omega  # need for helper\n",
      "        self._tsq = omega if self.no_defer_trick else self._kappa * omega\n")],
    "the stable space in immediate-scaling mode, first update, started with a scalar radius other than 1",
    "the first update uses the wrong width: statuses and ellipsoids differ from the other implementation",
    """
import numpy as np
from ellalgo.ell_stable import EllStable
a, b = EllStable(4.0, np.zeros(2)), EllStable(4.0, np.zeros(2))
b.no_defer_trick = True
c = (np.array([1.0, 0.5]), 0.7)
assert a.update_bias_cut(c) == b.update_bias_cut(c)
assert np.allclose(a.xc(), b.xc()) and abs(a.tsq() - b.tsq()) < 1e-9
""")

bug("c04-stable-central-as-bias", "C04",
    [("ell_stable.py", "        return self._update_core(cut, self.helper.calc_single_or_parallel_central_cut)\n",
      "        return self._update_core(cut, self.helper.calc_single_or_parallel)\n")],
    "a central update of the stable space with a non-zero first offset",
    "the stable space treats central cuts as deep cuts, unlike the plain one",
    """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
a, b = Ell(4.0, np.zeros(2)), EllStable(4.0, np.zeros(2))
c = (np.array([1.0, 0.5]), 0.7)
assert a.update_central_cut(c) == b.update_central_cut(c)
assert np.allclose(a.xc(), b.xc())
""")

bug("c05-absolute-nosoln", "C05",
    [("ell_calc.py", "        if tsq < bsq:\n            return (CutStatus.NoSoln, None)  # no sol'n\n        tau = sqrt(tsq)\n",
      "        if tsq < bsq - 1e-14:\n            return (CutStatus.NoSoln, None)  # no sol'n\n        tau = sqrt(tsq)\n")],
    "a cut that misses the ellipsoid, described with a very small gradient",
    "the same empty region is 'no solution' on one scale and 'success' on another",
    """
import numpy as np
from ellalgo.ell import Ell
a, b = Ell(4.0, np.zeros(2)), Ell(4.0, np.zeros(2))
g = np.array([1.0, 0.5])
s = 2.0 ** -30
assert a.update_bias_cut((g, 5.0)) == b.update_bias_cut((g * s, 5.0 * s))
""")

bug("c05-q-ignores-flag", "C05",
    [("ell_calc.py", "        elif len(beta) < 2 or not self.use_parallel_cut:  # unlikely\n            return self.calc_bias_cut_q(beta[0], tsq)",
      "        elif len(beta) < 2:  # unlikely\n            return self.calc_bias_cut_q(beta[0], tsq)")],
    "quantized update with a pair while parallel cuts are disabled",
    "the pair still acts as a parallel cut",
    """
import numpy as np
from ellalgo.ell import Ell
a, b = Ell(4.0, np.zeros(2)), Ell(4.0, np.zeros(2))
a.helper.use_parallel_cut = False
g = np.array([1.0, 0.5])
a.update_q((g, (0.1, 0.3)))
b.update_q((g, 0.1))
assert np.allclose(a.xc(), b.xc())
""")

bug("c05-absolute-slack", "C05",
    [("ell_calc.py", "        if tsq <= b1sq:\n", "        if tsq <= b1sq + 1e-9:\n")],
    "a central parallel cut in a small space or with a small gradient",
    "the second plane is ignored depending on the scale in which the cut is written",
    """
import numpy as np
from ellalgo.ell import Ell
a, b = Ell(4.0, np.zeros(2)), Ell(4.0, np.zeros(2))
g = np.array([1.0, 0.5])
s = 2.0 ** -20
a.update_central_cut((g, (0.0, 0.5)))
b.update_central_cut((g * s, (0.0, 0.5 * s)))
assert np.allclose(a.xc(), b.xc())
""")


bug("c06-fast2-abs", "C06",
    [("ell_calc_core.py", "        # sigma = 2.0 * eta / (tsq + b0b1 + self._n_f * bsumsq + xi)\n        rho = sigma * (beta0 + beta1) / 2.0\n",
      "        # sigma = 2.0 * eta / (tsq + b0b1 + self._n_f * bsumsq + xi)\n        rho = sigma * sqrt(bsumsq) / 2.0\n")],
    "the second formulation of a parallel cut with a pair whose mean offset is negative",
    "the centre shift has the wrong sign",
    """
from ellalgo.ell_calc_core import EllCalcCore
c = EllCalcCore(3)
a = c.calc_parallel_bias_cut_fast(-0.2, 0.1, 1.0, -0.02, 0.94)
b = c.calc_parallel_bias_cut_fast2(-0.2, 0.1, 1.0, -0.02, 0.94)
assert all(abs(x - y) < 1e-9 for x, y in zip(a, b)), (a, b)
""")

bug("c06-old-central-limit", "C06",
    [("ell_calc_core.py", "        if gamma_q < 0.0:\n            gamma_q = 0.0\n", "        if gamma_q < 1e-3 * tsq * tsq:\n            gamma_q = 0.0\n")],
    "the original parallel formulation where the discriminant is small but not zero",
    "the original formulation disagrees with the others near the degenerate case",
    """
from ellalgo.ell_calc_core import EllCalcCore
c = EllCalcCore(2)
worst = 0.0
for i in range(0, 100):
    for j in range(i + 1, 100):
        b0, b1 = i / 100, j / 100
        a = c.calc_parallel_bias_cut_fast(b0, b1, 1.0, b0 * b1, 1.0 + 2 * b0 * b1)
        b = c.calc_parallel_bias_cut_fast_old(b0, b1, 1.0, b0 * b1, 1.0 + 2 * b0 * b1)
        worst = max(worst, max(abs(x - y) for x, y in zip(a, b)))
assert worst < 1e-6, worst
""")

SCRIPT = """
import numpy as np
from ellalgo.cutting_plane import *
from ellalgo.ell_config import CutStatus, Options
class Space:
    def __init__(self, statuses, tsqs=None):
        self.st, self.ts, self.k, self.log = statuses, tsqs, 0, []
        self.x = np.array([0.0, 0.0])
    def xc(self): return self.x
    def tsq(self): return self.ts[self.k - 1] if self.ts else 1.0
    def upd(self, kind, cut):
        self.log.append((kind, cut)); s = self.st[self.k]; self.k += 1; self.x = self.x + 1.0; return s
    def update_bias_cut(self, cut): return self.upd('b', cut)
    def update_central_cut(self, cut): return self.upd('c', cut)
    def update_q(self, cut): return self.upd('q', cut)
def opts(m=10, t=1e-9):
    o = Options(); o.max_iters, o.tolerance = m, t; return o
S, N, E, U = CutStatus.Success, CutStatus.NoSoln, CutStatus.NoEffect, CutStatus.Unknown
CUT = (np.array([1.0, 1.0]), 0.0)
"""

bug("c07-no-effect-continues", "C07",
    [("cutting_plane.py", "        status = space.update_bias_cut(cut)\n        # Check termination conditions\n" if False else "        if status != CutStatus.Success or space.tsq() < options.tolerance:\n            return None, niter\n",
      "        if status == CutStatus.NoSoln or space.tsq() < options.tolerance:\n            return None, niter\n")],
    "an update that answers 'no effect' during the feasibility search",
    "the search goes on after a failed update instead of answering None",
    SCRIPT + """
class O:
    n = 0
    def assess_feas(self, x):
        self.n += 1
        return CUT
o = O()
assert cutting_plane_feas(o, Space([S, E, S, S, S]), opts(5)) == (None, 1) and o.n == 2
""")

bug("c07-returns-start", "C07",
    [("cutting_plane.py", "            return space.xc(), niter\n", "            return omega_x, niter\n"),
     ("cutting_plane.py", "        cut = omega.assess_feas(space.xc())\n", "        omega_x = space.xc() if niter % 8 == 0 else omega_x + (space.xc() - omega_x) * (1.0 - 1e-13)\n        cut = omega.assess_feas(space.xc())\n")],
    "a search that needs more than one round and a centre whose rounded difference does not reproduce it",
    "the returned point is not bit for bit the accepted centre",
    SCRIPT + """
class O:
    n = 0
    def assess_feas(self, x):
        self.n += 1
        self.x = x.copy()
        return CUT if self.n < 4 else None
o = O()
s = Space([S] * 9)
x, k = cutting_plane_feas(o, s, opts(9))
assert k == 3 and (x == o.x).all()
""")

bug("c08-zero-is-no-improvement", "C08",
    [("cutting_plane.py", "        if gamma1 is not None:  # Found better objective value\n", "        if gamma1:  # Found better objective value\n")],
    "an oracle whose improved objective value is exactly zero",
    "the improvement is ignored: no best point, wrong kind of update",
    SCRIPT + """
class O:
    def assess_optim(self, x, g): return CUT, 0.0
x, g, k = cutting_plane_optim(O(), Space([N]), 5.0, opts(5))
assert x is not None and g == 0.0
""")

bug("c08-alias-of-centre", "C08",
    [("cutting_plane.py", "            x_best = copy.copy(space.xc())\n", "            x_best = space.xc()\n")],
    "a search space that moves its centre in place",
    "the returned best point is no longer the point at which the value was reported",
    SCRIPT + """
class Sp(Space):
    def upd(self, kind, cut):
        s = self.st[self.k]; self.k += 1; self.x += 1.0; return s
class O:
    n = 0
    def assess_optim(self, x, g):
        self.n += 1
        return CUT, (3.0 if self.n == 2 else None)
x, g, k = cutting_plane_optim(O(), Sp([S, S, S, N]), 5.0, opts(5))
assert list(x) == [1.0, 1.0] and g == 3.0, x
""")

bug("c08-same-value-ignored", "C08",
    [("cutting_plane.py", "        if gamma1 is not None:  # Found better objective value\n", "        if gamma1 is not None and gamma1 != gamma:  # Found better objective value\n")],
    "an improvement report whose value equals the current best",
    "a later point with the same value is dropped and gets a bias instead of a central update",
    SCRIPT + """
class O:
    def assess_optim(self, x, g): return CUT, 5.0
s = Space([N])
x, g, k = cutting_plane_optim(O(), s, 5.0, opts(5))
assert x is not None and s.log[0][0] == 'c'
""")

bug("c09-one-retry-only", "C09",
    [("cutting_plane.py", "            if not more_alt:  # Exhausted alternative cuts\n", "            if retry or not more_alt:  # Exhausted alternative cuts\n")],
    "two consecutive 'no effect' answers while the oracle still offers alternatives",
    "the search gives up although alternatives remain",
    SCRIPT + """
class O:
    log = []
    def assess_optim_q(self, x, g, retry):
        self.log.append(retry)
        return CUT, x, None, True
o = O()
x, g, k = cutting_plane_optim_q(o, Space([E, E, N]), 5.0, opts(5))
assert k == 2 and o.log == [False, True, True], o.log
""")

bug("c09-nosoln-drops", "C09",
    [("cutting_plane.py", "            gamma = gamma1\n            x_best = copy.copy(x_q)", "            gamma = gamma1\n            x_best = copy.copy(x_q)") if False else
     ("cutting_plane.py", "            return x_best, gamma, niter  # No solution exists\n", "            return (x_best if gamma1 is None else None), gamma, niter  # No solution exists\n")],
    "an improvement whose own cut makes the space empty",
    "the last incumbent is lost while its value is still returned",
    SCRIPT + """
class O:
    def assess_optim_q(self, x, g, retry): return CUT, x, 1.0, True
x, g, k = cutting_plane_optim_q(O(), Space([N]), 5.0, opts(5))
assert x is not None and g == 1.0
""")

bug("c09-default-central", "C09",
    [("ell_typing.py", "        return self.update_bias_cut(cut)\n", "        return self.update_central_cut(cut)\n")],
    "a search space that does not define its own quantized update",
    "its cuts are applied as central ones",
    SCRIPT + """
from ellalgo.ell_typing import SearchSpace
class Sp(SearchSpace):
    def __init__(self): self.log = []
    def xc(self): return np.zeros(2)
    def tsq(self): return 1.0
    def update_bias_cut(self, cut): self.log.append('b'); return N
    def update_central_cut(self, cut): self.log.append('c'); return N
s = Sp()
class O:
    def assess_optim_q(self, x, g, retry): return CUT, x, None, True
cutting_plane_optim_q(O(), s, 5.0, opts(5))
assert s.log == ['b']
""")

bug("c10-type-of-lower", "C10",
    [("cutting_plane.py", "    T = type(upper)  # Preserve numerical type (int/float)\n", "    T = type(lower)  # Preserve numerical type (int/float)\n")],
    "an interval whose lower end is written as an integer and whose upper end is a float",
    "all probes are truncated to integers, the result is off by up to one",
    SCRIPT + """
class O:
    def assess_bs(self, g): return g >= 2.7
x, k = bsearch(O(), (0, 8.0), opts(200, 1e-6))
assert 2.7 <= x <= 2.7 + 1e-5
""")

bug("c10-returns-middle", "C10",
    [("cutting_plane.py", "        if tau < options.tolerance:  # Convergence check\n            return upper, niter\n", "        if tau < options.tolerance:  # Convergence check\n            return T(lower + tau), niter\n")],
    "nothing special; differs from an accepted value only by less than the tolerance",
    "the returned value was never accepted by the oracle",
    SCRIPT + """
class O:
    def __init__(self, t): self.t = t
    def assess_bs(self, g): return g >= self.t
for i in range(50):
    t = 0.1 + i * 0.15
    x, k = bsearch(O(t), (0.0, 8.0), opts(200, 0.05))
    assert x >= t
""")

bug("c11-shallow-copy", "C11",
    [("cutting_plane.py", "        space = copy.deepcopy(self.space)  # Isolate subproblem space\n", "        space = copy.copy(self.space)  # Isolate subproblem space\n")],
    "a sequence of probes on one adaptor",
    "a probe alters the ellipsoid used by later probes",
    SCRIPT + """
from ellalgo.ell import Ell
class O:
    def update(self, g): self.g = g
    def assess_feas(self, x):
        return None if x[0] <= self.g else (np.array([1.0, 0.0]), x[0] - self.g)
e = Ell(100.0, np.zeros(2))
m = e._mq.copy()
a = BSearchAdaptor(O(), e, opts(100))
a.assess_bs(-3.0)
assert (e._mq == m).all()
""")

bug("c11-update-cached", "C11",
    [("cutting_plane.py", "        self.options = options  # Subproblem solver parameters\n", "        self.options = options  # Subproblem solver parameters\n        self._level: Any = None\n"),
     ("cutting_plane.py", "        self.omega.update(gamma)  # Set current g level\n", "        if gamma != self._level:  # Set current g level\n            self.omega.update(gamma)\n            self._level = gamma\n")],
    "two adaptors sharing one oracle (or the oracle updated elsewhere) and the same value probed twice",
    "the oracle is queried at a stale parameter value",
    SCRIPT + """
from ellalgo.ell import Ell
class O:
    def update(self, g): self.g = g
    def assess_feas(self, x):
        return None if x[0] <= self.g else (np.array([1.0, 0.0]), x[0] - self.g)
o = O()
a = BSearchAdaptor(o, Ell(100.0, np.zeros(2)), opts(100))
assert not a.assess_bs(-30.0)
o.update(50.0)
assert not a.assess_bs(-30.0)
""")

bug("c12-relative-stop", "C12",
    [("cutting_plane.py", "        if status != CutStatus.Success or space.tsq() < options.tolerance:\n            return None, niter\n    return None, options.max_iters\n",
      "        width = max(width, space.tsq()) if niter else space.tsq()\n        if status != CutStatus.Success or space.tsq() < options.tolerance * max(width, 1.0):\n            return None, niter\n    return None, options.max_iters\n")],
    "a large start ellipsoid and a small feasible set, with a moderate tolerance",
    "the search stops early and answers None although a feasible ball exists",
    """
import numpy as np
from ellalgo.cutting_plane import cutting_plane_feas
from ellalgo.ell import Ell
from ellalgo.ell_config import Options
class Box:
    c, r = np.array([3.0e4, -1.0e4]), 0.5
    def assess_feas(self, x):
        for i in (0, 1):
            d = x[i] - self.c[i]
            if abs(d) > self.r:
                g = np.zeros(2); g[i] = np.sign(d)
                return g, abs(d) - self.r
o = Options(); o.tolerance = 1e-2
x, k = cutting_plane_feas(Box(), Ell(1e10, np.zeros(2)), o)
assert x is not None
""")

bug("c13-absolute-pivot", "C13",
    [("oracles/ldlt_mgr.py", "            if diag <= 0.0:\n", "            if diag <= 1e-12:\n")],
    "a positive definite matrix with small entries",
    "it is reported as not positive definite, with a witness that proves nothing",
    """
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
assert LDLTMgr(2).factorize(np.array([[2.0, 1.0], [1.0, 2.0]]) * 2.0**-44)
""")

bug("c13-cached-matrix", "C13",
    [("oracles/ldlt_mgr.py", '    __slots__ = ("pos", "wit", "_ndim", "_storage")\n', '    __slots__ = ("pos", "wit", "_ndim", "_storage", "_last")\n'),
     ("oracles/ldlt_mgr.py", "        self._ndim: int = ndim\n", "        self._ndim: int = ndim\n        self._last: object = None\n"),
     ("oracles/ldlt_mgr.py", "        return self.factor(lambda i, j: mat[i, j])\n", "        if mat is self._last:\n            return self.is_spd()\n        self._last = mat\n        return self.factor(lambda i, j: mat[i, j])\n")],
    "the same array factorized again after its contents changed (or after another factor call)",
    "a stale decision and witness are returned",
    """
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
m = LDLTMgr(2)
a = np.array([[2.0, 1.0], [1.0, 2.0]])
assert m.factorize(a)
a[0, 0] = -1.0
assert not m.factorize(a)
""")

bug("c14-min-depth", "C14",
    [("oracles/lmi0_oracle.py", "            return g, ep\n", "            return g, max(ep, 1e-6)\n")],
    "a query whose matrix is only slightly indefinite or singular",
    "the cut is deeper than the violation and removes feasible points",
    """
import numpy as np
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
o = LMI0Oracle([np.array([[1.0]]), np.array([[0.0]])])
g, ep = o.assess_feas(np.array([0.0, 0.0]))
assert g @ np.array([1e-9, 5.0]) + ep <= 0
""")

bug("c14-lazy-semidefinite", "C14",
    [("oracles/lmi_oracle.py", "        if self.ldlt_mgr.factor(get_elem):\n", "        if self.ldlt_mgr.factor_with_allow_semidefinite(get_elem):\n")],
    "a query whose matrix is exactly singular",
    "a point whose matrix is not positive definite is accepted",
    """
import numpy as np
from ellalgo.oracles.lmi_oracle import LMIOracle
o = LMIOracle([np.array([[1.0, 0.0], [0.0, 0.0]]), np.array([[0.0, 0.0], [0.0, 1.0]])], np.eye(2))
assert o.assess_feas(np.array([0.0, 1.0])) is not None
""")

bug("c15-rb-sign-of-first", "C15",
    [("oracles/profit_oracle.py", "            a_rb[i] += -self.uie[i] if xc[i] > 0.0 else self.uie[i]\n", "            a_rb[i] += -self.uie[i] if xc[0] > 0.0 else self.uie[i]\n")],
    "a query with one positive and one negative log-input",
    "the robust oracle reports more than the worst-case profit",
    """
import math, numpy as np
from ellalgo.oracles.profit_oracle import ProfitRbOracle
a, v, p, A, k = np.array([0.1, 0.4]), np.array([0.1, 0.1]), 20.0, 40.0, 30.5
o = ProfitRbOracle((p, A, k), a, v, (0.003, 0.007, 1.0, 1.0, 0.01))
x = np.array([1.0, -1.0])
_, g = o.assess_optim(x, 0.0)
worst = min((p - 1) * A * math.exp((a[0] + s * .003) * x[0] + (a[1] + t * .007) * x[1]) for s in (-1, 1) for t in (-1, 1)) - (v + .01) @ np.exp(x)
assert abs(g - worst) < 1e-9
""")

bug("c15-robust-limit-floor", "C15",
    [("oracles/profit_oracle.py", "            limit - e4,  # Worst-case capacity reduction\n", "            max(limit - e4, 1.0),  # Worst-case capacity reduction\n")],
    "a robust problem whose reduced limit is below one",
    "inputs beyond the worst-case limit are accepted",
    """
import math, numpy as np
from ellalgo.oracles.profit_oracle import ProfitRbOracle
o = ProfitRbOracle((20.0, 40.0, 1.2), np.array([0.1, 0.4]), np.array([1.0, 3.5]), (0.003, 0.007, 1.0, 0.7, 0.5))
_, g = o.assess_optim(np.array([math.log(0.8), 0.5]), 0.0)
assert g is None
""")

bug("c16-clamped-to-limit", "C16",
    [("oracles/profit_oracle.py", "            self.xd = np.log(yd)\n", "            self.xd = np.minimum(np.log(yd), [self.omega.log_k, np.inf])\n")],
    "a feasible query just below a fractional limit that rounds above it",
    "a non-integer point is evaluated and can become the incumbent",
    """
import math, numpy as np
from ellalgo.oracles.profit_oracle import ProfitQOracle
o = ProfitQOracle((20.0, 40.0, 30.7), np.array([0.1, 0.4]), np.array([1.0, 3.5]))
cut, xd, g, more = o.assess_optim_q(np.array([math.log(30.6), 1.0]), 0.0, False)
assert np.allclose(np.exp(xd), np.round(np.exp(xd)), atol=1e-9) and g is None
""")

bug("c16-keeps-incumbent-point", "C16",
    [("oracles/profit_oracle.py", "        return (grad, beta), self.xd, gamma_new, not retry\n", "        xd = self.xd\n        if gamma_new is None:\n            self.xd = np.array([0.0, 0.0])\n        return (grad, beta), xd, gamma_new, not retry\n")],
    "a retry after a rounded point that did not improve",
    "the retry evaluates another point than the one last rounded",
    """
import math, numpy as np
from ellalgo.oracles.profit_oracle import ProfitQOracle
o = ProfitQOracle((20.0, 40.0, 30.7), np.array([0.1, 0.4]), np.array([1.0, 3.5]))
x = np.array([math.log(30.6), 1.0])
cut, xd, g, more = o.assess_optim_q(x, 0.0, False)
assert g is None
cut, xe, g, more = o.assess_optim_q(x, 0.0, True)
assert np.allclose(xd, xe)
""")

bug("c17-transition-skips-one", "C17",
    [("oracles/lowpass_oracle.py", "        for _ in range(self.nwpass, self.nwstop):\n", "        for _ in range(self.nwpass + 1, self.nwstop):\n")],
    "a response negative at a single transition-band frequency, with the round robin standing at it",
    "an infeasible filter is accepted",
    """
import numpy as np
from ellalgo.oracles.lowpass_oracle import LowpassOracle
bad = 0
for start in range(40):
    o = LowpassOracle(2, 0.2, 0.5, -100.0, 100.0, 100.0)
    A = o.spectrum
    # response x0 + 2 x1 cos w is negative exactly on the first transition frequency: impossible with 2 taps, so scan many
    o = LowpassOracle(4, 0.3, 0.45, -1e9, 1e9, 1e9)
    A = o.spectrum
    for _ in range(start % 9):
        o.assess_feas(np.array([1.0, 0, 0, 0]))
    for k in range(o.nwpass, o.nwstop):
        # q(w) = (c - ck)^2 - eps, expanded in cosines: negative only at frequency k
        ck = A[k, 1] / 2
        others = [abs(A[j, 1] / 2 - ck) for j in range(A.shape[0]) if j != k]
        eps = min(others) ** 2 / 2
        x = np.array([0.5 + ck * ck - eps, -ck, 0.25, 0.0])
        r = A @ x
        assert r[k] < 0 and (np.delete(r, k) > 0).all()
        assert o.assess_feas(x) is not None
""")

bug("c17-level-restored", "C17",
    [("oracles/lowpass_oracle.py", "        self.sp_sq = gamma\n", "        sp_sq, self.sp_sq = self.sp_sq, gamma\n"),
     ("oracles/lowpass_oracle.py", "        if cut := self.assess_feas(xc):\n", "        cut = self.assess_feas(xc)\n        self.sp_sq = sp_sq\n        if cut:\n")],
    "a feasibility query after an optimizing one",
    "the level of the last optimizing query does not stay in force",
    """
import numpy as np
from ellalgo.oracles.lowpass_oracle import LowpassOracle
o = LowpassOracle(4, 0.3, 0.45, 0.0, 1e9, 1e9)
o.assess_optim(np.array([5.0, 0, 0, 0]), 10.0)
assert o.assess_feas(np.array([20.0, 0, 0, 0])) is not None
""")

bug("c18-relative-tolerance", "C18",
    [("conjugate_gradient.py", "        if np.sqrt(residual_norm_sq_new) < tol:\n", "        if np.sqrt(residual_norm_sq_new) < tol * max(1.0, float(np.linalg.norm(b))):\n")],
    "a right-hand side of large norm",
    "a point that misses the tolerance is returned",
    """
import numpy as np
from ellalgo.conjugate_gradient import conjugate_gradient
A = np.diag([1.0, 2.0, 3.0, 4.0]) + 0.1
b = np.array([1e4, 2e3, -3e4, 1.0])
for t in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5):
    x = conjugate_gradient(A, b, tol=t)
    assert np.linalg.norm(b - A @ x) < t * 1.01 + 1e-9
""")

bug("c18-restart", "C18",
    [("conjugate_gradient.py", "            residual + improvement_ratio * direction\n", "            residual + (improvement_ratio * direction if iteration % 4 != 3 else 0.0)\n")],
    "a system with more than four distinct eigenvalues",
    "the solver needs more than n steps and fails with a step limit that suffices",
    """
import numpy as np
from ellalgo.conjugate_gradient import conjugate_gradient
A = np.diag([1.0, 2.0, 5.0, 9.0, 30.0, 70.0])
b = np.ones(6)
x = conjugate_gradient(A, b, tol=1e-8, max_iter=7)
assert np.linalg.norm(b - A @ x) < 1e-7
""")

bug("c19-negative-accepted", "C19",
    [("oracles/spectral_fact.py", "            if min_val > -1e-4:\n", "            if min_val > -1e-4 * max(1.0, np.max(R)):\n")],
    "a sequence of large scale whose spectrum is clearly negative somewhere",
    "an invalid autocorrelation is factored instead of being refused",
    """
import numpy as np
from ellalgo.oracles.spectral_fact import spectral_fact
try:
    spectral_fact(np.array([1e4, 5000.25]))
except RuntimeError:
    pass
else:
    raise SystemExit(1)
""")

bug("c19-trim", "C19",
    [("oracles/spectral_fact.py", "    n = len(h)\n", "    h = np.trim_zeros(h, \"b\")\n    n = len(h)\n")],
    "an impulse response that ends with zeros",
    "the autocorrelation has the wrong length",
    """
import numpy as np
from ellalgo.oracles.spectral_fact import inverse_spectral_fact
assert list(inverse_spectral_fact(np.array([1.0, 2.0, 0.0]))) == [5.0, 2.0, 0.0]
""")

bug("c20-shared-storage", "C20",
    [("oracles/ldlt_mgr.py", "        self._storage: np.ndarray = np.zeros((ndim, ndim))  # pre-allocate storage\n", "        self._storage: np.ndarray = _STORAGE.setdefault(ndim, np.zeros((ndim, ndim)))\n"),
     ("oracles/ldlt_mgr.py", "class LDLTMgr:\n", "_STORAGE: dict = {}  # pre-allocated storage by dimension\n\n\nclass LDLTMgr:\n")],
    "two managers of the same dimension used alternately: factor one, factor the other, ask the first",
    "one manager's witness or root is computed from the other's matrix",
    """
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
a, b = LDLTMgr(2), LDLTMgr(2)
A = np.array([[1.0, 0.5], [0.5, 2.0]])
a.factorize(A)
b.factorize(np.eye(2))
assert np.allclose(a.sqrt().T @ a.sqrt(), A)
""")

bug("c20-scratch-buffer", "C20",
    [("ell.py", "        grad_t = self._mq @ grad  # n^2 multiplications\n", "        grad_t = _SCRATCH.setdefault(len(grad), np.empty(len(grad)))\n        np.dot(self._mq, np.asarray(grad, dtype=float), out=grad_t)  # n^2 multiplications\n"),
     ("ell.py", "class Ell(SearchSpace[ArrayType]):\n", "_SCRATCH: dict = {}  # work vectors by dimension\n\n\nclass Ell(SearchSpace[ArrayType]):\n")],
    "two spaces of equal dimension updated from two threads, switching between the product and its use",
    "one space moves along the other's direction",
    """
import sys, threading
import numpy as np
from ellalgo.ell import Ell
def run(out, k, gs):
    e = Ell(1.0, np.zeros(3))
    for g in gs:
        e.update_bias_cut((g, 0.0))
    out[k] = e.xc()
sys.setswitchinterval(1e-6)
G = [[np.array([1.0 + (i * k) % 3, 0.5, -1.0 * k]) for i in range(400)] for k in (1, 2)]
ref = [None, None]
for k in (0, 1):
    run(ref, k, G[k])
for _ in range(60):
    out = [None, None]
    ts = [threading.Thread(target=run, args=(out, k, G[k])) for k in (0, 1)]
    [t.start() for t in ts]; [t.join() for t in ts]
    for k in (0, 1):
        assert (out[k] == ref[k]).all()
# deterministic: another update between product and use, driven from inside the cut strategy
e, f = Ell(1.0, np.zeros(2)), Ell(1.0, np.zeros(2))
class B(float):
    pass
class Pair(list):
    def __len__(self):
        f.update_bias_cut((np.array([0.0, 1.0]), 0.0))
        return 2
e.update_bias_cut((np.array([1.0, 0.0]), Pair([0.0, 0.5])))
assert abs(e.xc()[1]) < 1e-12
""")

bug("c20-point-in-place", "C20",
    [("oracles/profit_oracle.py", "            self.xd = np.log(yd)\n", "            np.log(yd, out=self.xd)\n")],
    "keeping a point returned by the discrete oracle across a later query",
    "a point once returned is changed by later calls",
    """
import math, numpy as np
from ellalgo.oracles.profit_oracle import ProfitQOracle
o = ProfitQOracle((20.0, 40.0, 30.7), np.array([0.1, 0.4]), np.array([1.0, 3.5]))
_, x1, *_ = o.assess_optim_q(np.array([1.0, 1.0]), 0.0, False)
c = x1.copy()
o.assess_optim_q(np.array([2.0, 2.0]), 0.0, False)
assert (x1 == c).all()
""")

bug("c21-quad-from-zero", "C21",
    [("oracles/ldlt_mgr.py", "        wit = self.wit[start:ndim]\n        return wit.dot(mat[start:ndim, start:ndim] @ wit)\n", "        wit = self.wit[:ndim]\n        return wit.dot(mat[:ndim, :ndim] @ wit)\n")],
    "a semidefinite factorization that fails after a zero pivot, with a manager whose witness was used before",
    "quadratic forms include stale witness entries outside the reported range",
    """
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
m = LDLTMgr(3)
A = np.array([[1.0, 2.0, 0.0], [2.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
m.factor_with_allow_semidefinite(lambda i, j: A[i, j]); m.witness()
B = np.diag([0.0, 1.0, -1.0]); 
m.factor_with_allow_semidefinite(lambda i, j: B[i, j]); ep = m.witness()
C = np.diag([1.0, 2.0, 3.0])
s, e = m.pos
v = np.zeros(3); v[s:e] = m.wit[s:e]
assert abs(m.sym_quad(C) - v @ C @ v) < 1e-12
""")

bug("c21-range-from-zero", "C21",
    [("oracles/ldlt_mgr.py", "            if diag < 0.0:\n                self.pos = start, i + 1\n", "            if diag < 0.0:\n                self.pos = 0, i + 1\n")],
    "a semidefinite factorization that fails after a zero pivot, with a manager used before",
    "the witness over the reported range is built from stale factors",
    """
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
m = LDLTMgr(3)
A = np.array([[1.0, 2.0, 0.0], [2.0, 5.0, 3.0], [0.0, 3.0, 1.0]])
m.factor_with_allow_semidefinite(lambda i, j: A[i, j])
B = np.diag([0.0, 1.0, -1.0])
m.factor_with_allow_semidefinite(lambda i, j: B[i, j]); ep = m.witness()
s, e = m.pos
v = m.wit[s:e]
assert s == 1 and abs(v @ B[s:e, s:e] @ v + ep) < 1e-12
""")
