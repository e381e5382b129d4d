"""Fifth batch of planted bugs."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-thin-slab-as-equality", "C01",
    [("ell_calc.py", "        if beta1 < beta0:\n            return (CutStatus.NoSoln, None)  # no sol'n\n        b1sq = beta1 * beta1\n        if beta1 > 0.0 and tsq <= b1sq:\n            return self.calc_bias_cut(beta0, tsq)\n",
      "        if beta1 < beta0:\n            return (CutStatus.NoSoln, None)  # no sol'n\n        if beta1 - beta0 < 1e-6 * sqrt(tsq):  # practically an equality\n            beta0 = beta1 = 0.5 * (beta0 + beta1)\n        b1sq = beta1 * beta1\n        if beta1 > 0.0 and tsq <= b1sq:\n            return self.calc_bias_cut(beta0, tsq)\n")],
    "a parallel bias cut whose two planes are nearly, but not quite, the same",
    "points between the two planes are discarded",
    """
import numpy as np
from ellalgo.ell import Ell
e = Ell(1.0, np.zeros(2))
e.update_bias_cut((np.array([1.0, 0.0]), [0.2, 0.2 + 4e-7]))
d = np.array([-0.2, 0.0]) - e.xc()          # a point on the first plane
P = e._kappa * e._mq
assert d[0] ** 2 <= P[0, 0] * (1 + 1e-6) + 1e-16, (d, P)
""")

bug("c02-scale-reset", "C02",
    [("ell.py", "        if self.no_defer_trick:\n", "        if not 1e-30 < self._kappa < 1e30:  # keep the factor in range\n            self._mq /= np.max(np.abs(self._mq))\n        if self.no_defer_trick:\n")],
    "a long or deep history that drives the deferred scale beyond 1e30 or below 1e-30",
    "the shape matrix is rescaled without compensating the scale",
    """
import numpy as np
from ellalgo.ell import Ell
e = Ell(1.0, np.zeros(2))
g = [np.array([1.0, 0.0]), np.array([0.0, 1.0])]
for k in range(300):
    old = e._kappa * e._mq[0, 0] * e._kappa * e._mq[1, 1]
    e.update_central_cut((g[k % 2], 0.0))
    new = e._kappa * e._mq[0, 0] * e._kappa * e._mq[1, 1]
    assert 0.4 < new / old < 1.0, (k, new / old)
""")

bug("c02-float32-large", "C02",
    [("ell.py", "            self._mq = np.eye(ndim)\n", "            self._mq = np.eye(ndim, dtype=np.float32 if ndim > 32 else float)\n")],
    "dimension above 32",
    "the shape matrix is kept in single precision; the volume is only right to 6 digits",
    """
import numpy as np
from ellalgo.ell import Ell
n = 40
e = Ell(1.0, np.zeros(n))
e.update_bias_cut((np.cos(np.arange(n)), 0.1))
g = np.sin(np.arange(n) + 0.3)
e2 = Ell(np.ones(n), np.zeros(n))
e2.update_bias_cut((np.cos(np.arange(n)), 0.1))
e.update_bias_cut((g, 0.1)); e2.update_bias_cut((g, 0.1))
assert abs(e.tsq() / e2.tsq() - 1) < 1e-10, (e.tsq(), e2.tsq())
""")

bug("c03-remembers-failed-gradient", "C03",
    [("ell.py", "        grad_t = self._mq @ grad  # n^2 multiplications\n", "        if getattr(self, \"_failed\", None) is not grad:\n            self._grad_t = self._mq @ grad  # n^2 multiplications\n        grad_t = self._grad_t\n        self._failed = None\n"),
     ("ell.py", "        if result is None:\n            return status\n", "        if result is None:\n            self._failed = grad  # nothing changed: reuse the product\n            return status\n")],
    "the caller reuses its gradient array: after a failed update it changes the values in place and updates again",
    "the second update uses the product of the old gradient",
    """
import numpy as np
from ellalgo.ell import Ell
e = Ell(4.0, np.zeros(2))
g = np.array([1.0, 0.0])
e.update_bias_cut((g, 9.0))
g[:] = [0.0, 1.0]
st = e.update_bias_cut((g, 0.5))
assert st.name == "Success" and e.xc()[1] < -0.1, (st, e.xc())
""")

bug("c04-stable-skips-small-component", "C04",
    [("ell_stable.py", "            p = v[j]\n", "            if abs(v[j]) < 1e-12:\n                continue  # nothing to do for this column\n            p = v[j]\n")],
    "a gradient with very small, nonzero components",
    "the factor is not updated for these components, the plain space is",
    """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
a, b = Ell(1.0, np.zeros(3)), EllStable(1.0, np.zeros(3))
for g in ([1e-13, 3e-13, -2e-13], [1.0, 2.0, 3.0], [3.0, 1.0, 0.0]):
    for s in (a, b):
        s.update_bias_cut((np.array(g), 0.0))
    assert np.allclose(a.xc(), b.xc()) and np.isclose(a.tsq(), b.tsq(), atol=0), (a.tsq(), b.tsq())
""")

bug("c05-diag-start-normalised", "C05",
    [("ell_stable.py", "            self._kappa = 1.0\n            self._mq = np.diag(", "            self._kappa = 1.0\n            if np.ptp(val) < 1e-9:  # a ball\n                val = np.full(ndim, float(val[0]))\n            self._mq = np.diag(")],
    "a start ellipsoid given as diagonal with nearly equal, very small entries",
    "small ellipsoids are silently replaced by a ball",
    """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
d = np.array([4e-10, 1e-10])
a, b = Ell(d, np.zeros(2)), EllStable(d, np.zeros(2))
for s in (a, b):
    s.update_bias_cut((np.array([0.0, 1.0]), 0.0))
assert np.isclose(a.tsq(), b.tsq(), rtol=1e-9, atol=0), (a.tsq(), b.tsq())
""")

bug("c06-central-thin", "C06",
    [("ell_calc_core.py", "        r = k + sqrt(1.0 - a1sq + k * k)\n", "        r = k + sqrt(1.0 - a1sq + k * k) if a1sq > 1e-3 else 1.0 + k\n")],
    "a parallel central cut with the second plane very near the centre",
    "the ellipsoid is not the minimal one",
    """
from ellalgo.ell_calc_core import EllCalcCore
c = EllCalcCore(4.0)
a, b = c.calc_parallel_central_cut(0.03, 1.0), c.calc_parallel_bias_cut(0.0, 0.03, 1.0)
assert all(abs(x - y) < 1e-9 for x, y in zip(a, b)), (a, b)
""")

bug("c07-stagnation", "C07",
    [("cutting_plane.py", "        if status != CutStatus.Success or space.tsq() < options.tolerance:\n            return None, niter\n    return None, options.max_iters\n",
      "        if status != CutStatus.Success or space.tsq() < options.tolerance:\n            return None, niter\n        if niter > 25 and space.tsq() == last:\n            return None, niter  # no progress any more\n        last = space.tsq()\n    return None, options.max_iters\n")],
    "more than 25 iterations and two successive updates with the same width",
    "gives up although the next centre would be accepted",
    """
import numpy as np
from ellalgo.cutting_plane import cutting_plane_feas
from ellalgo.ell_config import CutStatus
class S:
    x = np.zeros(2)
    def xc(self): return self.x
    def tsq(self): return 1.0
    def update_bias_cut(self, cut):
        self.x = self.x + 1.0
        return CutStatus.Success
class O:
    def assess_feas(self, x): return None if x[0] > 60 else (np.ones(2), 0.0)
assert cutting_plane_feas(O(), S())[1] == 61
""")

bug("c08-small-gain-ends", "C08",
    [("cutting_plane.py", "        if gamma1 is not None:  # Found better objective value\n            gamma = gamma1\n", "        if gamma1 is not None:  # Found better objective value\n            if niter > 100 and gamma1 == gamma:\n                return x_best, gamma, niter  # converged\n            gamma = gamma1\n")],
    "more than 100 iterations and an improvement that repeats the best value",
    "returns the older point instead of the last reported one",
    """
import numpy as np
from ellalgo.cutting_plane import cutting_plane_optim
from ellalgo.ell_config import CutStatus, Options
class S:
    x = np.zeros(2)
    def xc(self): return self.x
    def tsq(self): return 1.0
    def update_bias_cut(self, cut):
        self.x = self.x + 1.0
        return CutStatus.Success
    update_central_cut = update_bias_cut
class O:
    def assess_optim(self, x, gamma): return (np.ones(2), 0.0), 5.0
o = Options(); o.max_iters = 130
x, g, k = cutting_plane_optim(O(), S(), 7.0, o)
assert k == 130 and x[0] == 129, (x, g, k)
""")

bug("c09-ten-retries", "C09",
    [("cutting_plane.py", "    retry = False  # Discrete feasibility check flag\n", "    retry = False  # Discrete feasibility check flag\n    tries = 0\n"),
     ("cutting_plane.py", "            retry = True  # Retry with discrete solution\n", "            tries += 1\n            retry = tries % 11 != 0  # Retry with discrete solution\n")],
    "eleven updates without effect in one search",
    "the eleventh is not followed by a retry",
    """
import numpy as np
from ellalgo.cutting_plane import cutting_plane_optim_q
from ellalgo.ell_config import CutStatus, Options
seen = []
class S:
    def xc(self): return np.zeros(2)
    def tsq(self): return 1.0
    def update_q(self, cut): return CutStatus.NoEffect
class O:
    def assess_optim_q(self, x, gamma, retry):
        seen.append(retry)
        return (np.ones(2), 0.0), x, None, True
o = Options(); o.max_iters = 40
cutting_plane_optim_q(O(), S(), 7.0, o)
assert all(seen[1:]), seen
""")

bug("c10-relative-tolerance", "C10",
    [("cutting_plane.py", "        if tau < options.tolerance:  # Convergence check\n", "        if tau < options.tolerance * max(1.0, abs(upper) / 1e3):  # Convergence check\n")],
    "a bracket with a large upper end",
    "stops before the bracket is as small as the tolerance asks",
    """
from ellalgo.cutting_plane import bsearch
from ellalgo.ell_config import Options
class O:
    def assess_bs(self, g): return g >= 12345.678
o = Options(); o.tolerance = 1e-3
u, n = bsearch(O(), (0.0, 20000.0), o)
assert abs(u - 12345.678) <= 2e-3, u
""")

bug("c11-budget", "C11",
    [("cutting_plane.py", "        x_feas, _ = cutting_plane_feas(self.omega, space, self.options)\n", "        x_feas, used = cutting_plane_feas(self.omega, space, self.options)\n        self.last_used = used\n"),
     ("cutting_plane.py", "            self.space.set_xc(x_feas)  # Update main search space\n", "            if used > 0 or not hasattr(self, \"last_used\"):\n                self.space.set_xc(x_feas)  # Update main search space\n            else:\n                self.space = space  # nothing was cut: same ellipsoid\n")],
    "a probe that succeeds at once with a space that hands out its centre array and a caller that holds on to the space it passed in",
    "after such a probe the caller's space is no longer the one the adaptor works on",
    """
import numpy as np
from ellalgo.cutting_plane import BSearchAdaptor
from ellalgo.ell import Ell
class O:
    def update(self, g): self.g = g
    def assess_feas(self, x): return None if x[0] >= self.g else (np.array([-1.0, 0.0]), self.g - x[0])
e = Ell(100.0, np.zeros(2))
a = BSearchAdaptor(O(), e)
assert a.assess_bs(-1.0)
assert a.assess_bs(2.0)
assert np.array_equal(e.xc(), a.x_best), (e.xc(), a.x_best)
""")

bug("c13-banded-dot", "C13",
    [("oracles/ldlt_mgr.py", "        start: int = 0  # range start\n        self.pos = (0, 0)\n        for i in range(self._ndim):\n            diag = get_elem(i, start)\n            for j in range(start, i):\n                self._storage[j, i] = diag  # keep it for later use\n                self._storage[i, j] = diag / self._storage[j, j]  # the L[i, j]\n                stop = j + 1\n                diag = get_elem(i, stop) - self._storage[i, start:stop].dot(\n                    self._storage[start:stop, stop]\n                )\n            self._storage[i, i] = diag\n            if diag <= 0.0:\n",
      "        start: int = 0  # range start\n        self.pos = (0, 0)\n        for i in range(self._ndim):\n            diag = get_elem(i, start)\n            for j in range(start, i):\n                self._storage[j, i] = diag  # keep it for later use\n                self._storage[i, j] = diag / self._storage[j, j]  # the L[i, j]\n                stop = j + 1\n                first = start if stop < 16 else start + stop % 16\n                diag = get_elem(i, stop) - self._storage[i, first:stop].dot(\n                    self._storage[first:stop, stop]\n                )\n            self._storage[i, i] = diag\n            if diag <= 0.0:\n")],
    "a matrix of size 18 or more whose first rows couple to distant ones",
    "indefinite matrices are accepted",
    """
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
n = 20
A = np.eye(n); A[0, n - 1] = A[n - 1, 0] = 3.0
assert not LDLTMgr(n).factorize(A)
""")

bug("c14-many-variables", "C14",
    [("oracles/lmi_oracle.py", "            s = sum(Fk[i, j] * xk for Fk, xk in zip(self.mat_f, xc))\n", "            s = 0.0\n            for k in range(0, len(xc), 8):  # in blocks\n                s += sum(F[i, j] * v for F, v in zip(self.mat_f[k : k + 8], xc[k:8]))\n")],
    "more than eight variables",
    "later variables are ignored",
    """
import numpy as np
from ellalgo.oracles.lmi_oracle import LMIOracle
F = [np.zeros((2, 2)) for _ in range(10)]
F[9][0, 0] = 1.0
x = np.zeros(10); x[9] = 2.0
assert LMIOracle(F, np.eye(2)).assess_feas(x) is not None
""")

bug("c15-exp-guard", "C15",
    [("oracles/profit_oracle.py", "        self.q = self.price_out * np.exp(x)", "        self.q = self.price_out * np.exp(np.clip(x, -30.0, 12.0))")],
    "amounts above e^12 (about 163000 units)",
    "costs of large amounts are understated, so worse points are reported as improvements",
    """
import numpy as np
from ellalgo.oracles.profit_oracle import ProfitOracle
o = ProfitOracle((20.0, 40.0, 1e9), np.array([0.1, 0.4]), np.array([1e-6, 2e-6]))
x = np.array([13.0, 14.0])
_, g = o.assess_optim(x, 0.0)
y = np.exp(x)
true = 800.0 * y[0] ** 0.1 * y[1] ** 0.4 - 1e-6 * y[0] - 2e-6 * y[1]
assert g is not None and abs(g - true) < 1e-9 * abs(true), (g, true)
""")

bug("c16-round-late", "C16",
    [("oracles/profit_oracle.py", "            yd = np.round(np.exp(xc))", "            yd = np.floor(np.exp(xc) + 0.499)")],
    "a point whose amount lies between 0.500 and 0.501 above an integer",
    "the integer evaluated is not the nearest one",
    """
import numpy as np
from ellalgo.oracles.profit_oracle import ProfitQOracle
o = ProfitQOracle((20.0, 40.0, 30.5), np.array([0.1, 0.4]), np.array([10.0, 35.0]))
x = np.log(np.array([20.5006, 5.2]))
_, xd, g, _ = o.assess_optim_q(x, 0.0, False)
assert abs(np.exp(xd[0]) - 21.0) < 1e-9, np.exp(xd)
""")

bug("c17-narrow-transition", "C17",
    [("oracles/lowpass_oracle.py", "        for _ in range(self.nwpass, self.nwstop):\n", "        for _ in range(self.nwpass, self.nwstop if self.nwstop > self.nwpass + 1 else 0):\n")],
    "a transition band that holds exactly one frequency of the grid",
    "a negative response at that frequency is accepted",
    """
import math
import numpy as np
from ellalgo.oracles.lowpass_oracle import LowpassOracle
o = LowpassOracle(4, 0.5, 0.517, 0.0, 9.0, 9.0)
assert o.nwstop == o.nwpass + 1
w = math.pi * o.nwpass / 59
R = np.array([[1.0] + [2 * math.cos(k * math.pi * i / 59) for k in (1, 2, 3)] for i in range(60)])
from scipy.optimize import linprog
k = o.nwpass
A = np.delete(-R, k, axis=0)
r = linprog(R[k], A_ub=A, b_ub=np.zeros(59), bounds=[(-1, 1)] * 4, method="highs")
x = r.x + np.array([1e-9, 0, 0, 0])
if (R @ x)[k] < -1e-6 and np.delete(R @ x, k).min() >= 0 and (R @ x).max() <= 9.0:
    assert o.assess_feas(x) is not None
else:
    raise SystemExit("demo point not suitable %s" % (R @ x)[k])
""")

bug("c18-drift", "C18",
    [("conjugate_gradient.py", "        residual -= step_size * A_direction  # Update residual\n", "        residual -= step_size * A_direction  # Update residual\n        if iteration == 24:  # remove accumulated rounding\n            residual = b - np.dot(A, solution - step_size * direction)\n")],
    "a system that needs at least 25 steps",
    "the residual is recomputed for the wrong point, so a point that misses the tolerance is returned",
    """
import numpy as np
from ellalgo.conjugate_gradient import conjugate_gradient
n = 60
A = np.diag(np.arange(1.0, n + 1)) + 1.0
b = np.ones(n); b[0] = 5.0
x = conjugate_gradient(A, b, tol=1e-8)
assert np.linalg.norm(b - A @ x) < 1e-7, np.linalg.norm(b - A @ x)
""")

bug("c19-coarse-when-long", "C19",
    [("oracles/spectral_fact.py", "        mult_factor = 100  # should have mult_factor*(n) >> n\n", "        mult_factor = 100 if n < 50 else 8  # should have mult_factor*(n) >> n\n")],
    "a sequence of at least 50 taps with roots near the unit circle",
    "the factor does not reproduce the sequence",
    """
import numpy as np
from ellalgo.oracles.spectral_fact import spectral_fact, inverse_spectral_fact
h = np.zeros(60); h[0] = 1.0; h[1] = -0.99
r = inverse_spectral_fact(h)
assert np.max(np.abs(spectral_fact(r) - h)) < 1e-4
""")

bug("c20-helper-cache", "C20",
    [("ell.py", "class Ell(SearchSpace[ArrayType]):\n", "_HELPERS: dict = {}\n\n\nclass Ell(SearchSpace[ArrayType]):\n"),
     ("ell.py", "        self.helper = EllCalc(ndim)\n", "        self.helper = _HELPERS.setdefault(ndim, EllCalc(ndim))\n")],
    "two spaces of the same dimension, one of which disables parallel cuts",
    "disabling parallel cuts in one space disables them in the other",
    """
import numpy as np
from ellalgo.ell import Ell
a, b = Ell(1.0, np.zeros(2)), Ell(1.0, np.zeros(2))
c = (np.array([1.0, 0.0]), [0.1, 0.3])
a.helper.use_parallel_cut = False
a.update_bias_cut(c); b.update_bias_cut(c)
assert not np.allclose(a.xc(), b.xc())
""")

bug("c21-one-restart", "C21",
    [("oracles/ldlt_mgr.py", "                start = i + 1  # T[i, i] == 0 (very unlikely), restart at i+1\n", "                start = max(start, 1) if start else i + 1  # T[i, i] == 0 (very unlikely), restart at i+1\n")],
    "two zero pivots",
    "the second restart does not happen and the factorization goes on with a zero pivot",
    """
import warnings
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
warnings.simplefilter("ignore")
A = np.diag([0.0, 0.0, 1.0, -1.0])
assert not LDLTMgr(4).factor_with_allow_semidefinite(lambda i, j: A[i, j])
""")

bug("c22-robust-price-cap", "C22",
    [("oracles/profit_oracle.py", "            price_out + np.array([e5, e5]),  # Worst-case input price increase\n", "            price_out + np.array([e5, min(e5, 1.5)]),  # Worst-case input price increase\n")],
    "robust profit with a price uncertainty above 1.5",
    "the value returned is not the worst-case profit of the point",
    """
import numpy as np
from ellalgo.cutting_plane import cutting_plane_optim
from ellalgo.ell import Ell
from ellalgo.oracles.profit_oracle import ProfitRbOracle
a, v = np.array([0.1, 0.4]), np.array([10.0, 35.0])
o = ProfitRbOracle((20.0, 40.0, 30.5), a, v, (0.0, 0.0, 0.0, 0.0, 4.0))
x, g, k = cutting_plane_optim(o, Ell(100.0, np.zeros(2)), 0.0)
y = np.exp(x)
true = 800.0 * y[0] ** 0.1 * y[1] ** 0.4 - 14.0 * y[0] - 39.0 * y[1]
assert abs(g - true) < 1e-6 * abs(true), (g, true)
""")
