"""Fourth batch of planted bugs."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c02-skip-shallow", "C02",
    [("ell.py", "        self._mq -= (sigma / omega) * np.outer(grad_t, grad_t)\n", "        if sigma > 1e-3:  # not worth a rank-one update otherwise\n            self._mq -= (sigma / omega) * np.outer(grad_t, grad_t)\n")],
    "a quantized cut that is only just deep enough to have an effect",
    "the shape is not updated but the scale is: the ellipsoid grows",
    """
import numpy as np
from ellalgo.ell import Ell
e = Ell(1.0, np.zeros(3))
e.update_q((np.array([1.0, 0.0, 0.0]), -0.9995 / 3))
v = e._kappa ** 3 * np.linalg.det(e._mq)
assert v <= 1.0 + 1e-12, v
""")

bug("c03-q-absolute-eps", "C03",
    [("ell_calc.py", "        eta = tau + self._n_f * beta\n        if eta <= 0.0:\n", "        eta = tau + self._n_f * beta\n        if eta <= 1e-11:\n")],
    "a quantized cut in a very small ellipsoid (half-width below 1e-11)",
    "'no effect' is reported although the cut would help",
    """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_config import CutStatus
e = Ell(1e-24, np.zeros(2))
assert e.update_q((np.array([0.5, 0.0]), 0.0)) == CutStatus.Success
""")

bug("c04-stable-banded", "C04",
    [("ell_stable.py", "            for j in range(i, self._ndim):\n                g_t[i - 1]", "            for j in range(i, min(i + 8, self._ndim)):\n                g_t[i - 1]")],
    "dimension 10 or more and at least two updates with the stable space",
    "the centre is moved in a slightly wrong direction",
    """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
n = 12
a, b = Ell(1.0, np.zeros(n)), EllStable(1.0, np.zeros(n))
for g in (np.ones(n), np.arange(n) - 4.5, np.cos(np.arange(n))):
    for s in (a, b):
        s.update_bias_cut((g, 0.0))
assert np.allclose(a.xc(), b.xc())
""")

bug("c04-stable-forward-banded", "C04",
    [("ell_stable.py", "            for k in range(j + 1, self._ndim):\n                v[k]", "            for k in range(j + 1, min(j + 16, self._ndim)):\n                v[k]")],
    "dimension 17 or more",
    "the factor update leaves distant entries alone",
    """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
n = 20
a, b = Ell(1.0, np.zeros(n)), EllStable(1.0, np.zeros(n))
for g in (np.ones(n), np.arange(n) - 4.5, np.cos(np.arange(n))):
    for s in (a, b):
        s.update_bias_cut((g, 0.0))
assert np.allclose(a.xc(), b.xc())
""")

bug("c11-memo", "C11",
    [("cutting_plane.py", "        self.omega = omega  # Gamma-sensitive feasibility oracle\n", "        self.omega = omega  # Gamma-sensitive feasibility oracle\n        self._failed: list = []  # values known to be infeasible\n"),
     ("cutting_plane.py", "        space = copy.deepcopy(self.space)  # Isolate subproblem space\n", "        if gamma in self._failed:\n            return False\n        space = copy.deepcopy(self.space)  # Isolate subproblem space\n"),
     ("cutting_plane.py", "            return True\n        return False\n", "            return True\n        self._failed.append(gamma)\n        return False\n")],
    "a value probed again after the centre has moved, when the first probe only hit the iteration limit",
    "the second probe is answered from memory instead of by a search from the current state",
    """
import numpy as np
from ellalgo.cutting_plane import BSearchAdaptor
from ellalgo.ell import Ell
from ellalgo.ell_config import Options
class F:
    g = 0.0
    def update(self, g): self.g = g
    def assess_feas(self, x):
        v = x[0] + self.g
        return (np.array([1.0, 0.0]), v) if v > 0 else None
o = Options(); o.max_iters = 1
b = BSearchAdaptor(F(), Ell(100.0, np.array([-9.95, 0.0])), o)
a = BSearchAdaptor(F(), Ell(100.0, np.zeros(2)), o)
first = a.assess_bs(9.9)
a.space.set_xc(np.array([-9.95, 0.0]))
assert a.assess_bs(9.9) == b.assess_bs(9.9)
""")

bug("c13-reads-ahead", "C13",
    [("oracles/ldlt_mgr.py", "    def factor(self, get_elem: Callable[[int, int], float]) -> bool:\n", "    def factor(self, elem: Callable[[int, int], float]) -> bool:\n"),
     ("oracles/ldlt_mgr.py", "        for i in range(self._ndim):\n            diag = get_elem(i, start)\n            for j in range(start, i):\n                self._storage[j, i] = diag  # keep it for later use\n                self._storage[i, j] = diag / self._storage[j, j]  # the L[i, j]\n                stop = j + 1\n                diag = get_elem(i, stop) - self._storage[i, start:stop].dot(\n                    self._storage[start:stop, stop]\n                )\n            self._storage[i, i] = diag\n            if diag <= 0.0:\n",
      "        rows = [[elem(i, j) for j in range(i + 1)] for i in range(self._ndim)]\n\n        def get_elem(i: int, j: int) -> float:\n            return rows[i][j]\n\n        for i in range(self._ndim):\n            diag = get_elem(i, start)\n            for j in range(start, i):\n                self._storage[j, i] = diag  # keep it for later use\n                self._storage[i, j] = diag / self._storage[j, j]  # the L[i, j]\n                stop = j + 1\n                diag = get_elem(i, stop) - self._storage[i, start:stop].dot(\n                    self._storage[start:stop, stop]\n                )\n            self._storage[i, i] = diag\n            if diag <= 0.0:\n")],
    "a matrix given element by element that is refuted by its leading part",
    "all elements are evaluated although the leading ones decide",
    """
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
seen = []
A = np.array([[1.0, 2, 0], [2, 1, 0], [0, 0, 1]])
def el(i, j):
    seen.append(max(i, j)); return A[i, j]
assert not LDLTMgr(3).factor(el)
assert max(seen) <= 1
""")

SAME = """
import numpy as np
"""

bug("c14-same-object", "C14",
    [("oracles/lmi_old_oracle.py", "        self.ldlt_mgr = LDLTMgr(len(mat_b))\n", "        self.ldlt_mgr = LDLTMgr(len(mat_b))\n        self._last: tuple = (None, None)  # last point and its answer\n"),
     ("oracles/lmi_old_oracle.py", "        n = len(xc)\n", "        if self._last[0] is xc:\n            return self._last[1]\n        n = len(xc)\n"),
     ("oracles/lmi_old_oracle.py", "            return g, ep\n        return None\n", "            self._last = (xc, (g, ep))\n            return g, ep\n        return None\n")],
    "a caller that moves its point in place and asks again with the same array",
    "the answer of the earlier point is repeated",
    SAME + """
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
o = LMIOldOracle([np.eye(2)], np.eye(2))
x = np.array([3.0])
assert o.assess_feas(x) is not None
x[0] = 0.0
assert o.assess_feas(x) is None
""")

bug("c15-same-object", "C15",
    [("oracles/profit_oracle.py", "        self.log_Cobb = self.log_pA + self.elasticities.dot(x)\n        self.q = self.price_out * np.exp(x)  # v₁y₁, v₂y₂\n", "        self.log_Cobb = self.log_pA + self.elasticities.dot(x)\n        if self._x is not x:  # exponentials are expensive\n            self.q = self.price_out * np.exp(x)  # v₁y₁, v₂y₂\n            self._x = x\n"),
     ("oracles/profit_oracle.py", "        self.price_out = price_out\n        self.elasticities = elasticities\n        self.fns", "        self.price_out = price_out\n        self._x = None  # point of the last evaluation\n        self.elasticities = elasticities\n        self.fns")],
    "a caller that moves its point in place and asks again with the same array",
    "costs of the earlier point are used",
    SAME + """
from ellalgo.oracles.profit_oracle import ProfitOracle
o = ProfitOracle((20.0, 40.0, 30.5), np.array([0.1, 0.4]), np.array([10.0, 35.0]))
x = np.array([0.5, 0.5])
o.assess_optim(x, 0.0)
x[:] = [1.0, 1.5]
cut, g = o.assess_optim(x, 0.0)
assert abs(g - (800 * np.exp(0.1 + 0.6) - 10 * np.exp(1.0) - 35 * np.exp(1.5))) < 1e-9
""")

bug("c17-same-object", "C17",
    [("oracles/lowpass_oracle.py", "        self.kmax = 0  # Index where maximum response occurs\n", "        self.kmax = 0  # Index where maximum response occurs\n        self._asked = None  # last point and its response\n"),
     ("oracles/lowpass_oracle.py", "        mdim, ndim = self.spectrum.shape\n", "        mdim, ndim = self.spectrum.shape\n        if self._asked is None or self._asked[0] is not x:\n            self._asked = (x, self.spectrum @ x)\n        response = self._asked[1]\n"),
     ("oracles/lowpass_oracle.py", "            col_k = self.spectrum[self.idx2, :]\n            v = col_k.dot(x)\n", "            col_k = self.spectrum[self.idx2, :]\n            v = response[self.idx2]\n")],
    "a caller that moves its coefficients in place and asks again with the same array",
    "non-negativity in the transition band is judged for the earlier coefficients",
    SAME + """
from ellalgo.oracles.lowpass_oracle import LowpassOracle
o = LowpassOracle(3, 0.2, 0.9, 0.0, 3.0, 3.0)
w = np.pi * np.arange(45) / 44
S = np.column_stack([np.ones(45), 2 * np.cos(w), 2 * np.cos(2 * w)])
c0 = np.cos(w[25])
bad = np.array([1 + 2 * c0 * c0 - 1e-3, -2 * c0, 0.5])
bad *= 2.0 / (S @ bad).max()
x = np.array([1.0, 0.0, 0.0])
assert o.assess_feas(x) is None
x[:] = bad
assert (S @ x).min() < 0 and o.assess_feas(x) is not None
""")

bug("c16-int32", "C16",
    [("oracles/profit_oracle.py", "            yd = np.round(np.exp(xc))\n", "            yd = np.round(np.exp(xc)).astype(np.int32)\n"),
     ("oracles/profit_oracle.py", "            yd[yd == 0] = 1.0\n", "            yd[yd <= 0] = 1\n")],
    "inputs above 2**31",
    "huge amounts are replaced by one unit",
    """
import numpy as np
from ellalgo.oracles.profit_oracle import ProfitQOracle
o = ProfitQOracle((20.0, 40.0, 1e12), np.array([0.1, 0.4]), np.array([1e-9, 1e-9]))
cut, xq, g, more = o.assess_optim_q(np.array([23.0, 1.0]), 0.0, False)
assert abs(xq[0] - 23.0) < 1e-6, xq
""")

bug("c17-passband-mdim", "C17",
    [("oracles/lowpass_oracle.py", "floor(wpass * (mdim - 1)) + 1", "floor(wpass * mdim) + 1")],
    "a passband edge just below a grid frequency",
    "one frequency of the transition band is treated as passband",
    """
import numpy as np
from ellalgo.oracles.lowpass_oracle import LowpassOracle
# grid 0, 1/29, ..., 1: passband edge between 5/29 and 6/29, but 30 * edge > 6
o = LowpassOracle(2, 5.9 / 29, 0.7, 1.8, 2.0, 1.5)
w = np.pi * np.arange(30) / 29
# 1 + 2 x1 cos w
x = np.array([1.0, 0.5])
r = x[0] + 2 * x[1] * np.cos(w)
lo = r[5] - 1e-6
assert r[6] < lo
o = LowpassOracle(2, 5.9 / 29, 0.7, lo, 2.0, 1.5)
assert o.assess_feas(x) is None
""")

bug("c18-stagnation", "C18",
    [("conjugate_gradient.py", "        improvement_ratio = (\n", "        if residual_norm_sq_new > 4.0 * residual_norm_sq:  # diverging\n            raise ValueError(\"Conj Grad diverged\")\n        improvement_ratio = (\n")],
    "a positive definite system whose residual grows in a step before it falls",
    "a solvable system is refused",
    """
import numpy as np
from ellalgo.conjugate_gradient import conjugate_gradient
A = np.diag([1.0, 100.0])
b = np.array([1.0, 0.1])
x = conjugate_gradient(A, b, tol=1e-8)
assert np.linalg.norm(b - A @ x) < 1e-8
""")

bug("c19-absolute-floor", "C19",
    [("oracles/spectral_fact.py", "        if min_val <= 0:\n", "        if min_val <= 1e-10:\n")],
    "a valid sequence in small units (spectrum below 1e-10)",
    "the spectrum is replaced by a floor",
    """
import numpy as np
from ellalgo.oracles.spectral_fact import spectral_fact, inverse_spectral_fact
h = np.array([1.0, 0.5]) * 1e-7
r = inverse_spectral_fact(h)
assert np.allclose(spectral_fact(r) * 1e7, [1.0, 0.5])
""")

bug("c12-stall", "C12",
    [("cutting_plane.py", "        if status != CutStatus.Success or space.tsq() < options.tolerance:\n            return None, niter\n", "        if status != CutStatus.Success or space.tsq() < options.tolerance:\n            return None, niter\n        if niter > 40 and space.tsq() < 1e-9:\n            return None, niter\n")],
    "a small feasible set that takes more than forty iterations",
    "the search gives up although the tolerance is far smaller",
    """
import numpy as np
from ellalgo.cutting_plane import cutting_plane_feas
from ellalgo.ell import Ell
n, c, r = 4, np.array([0.3, -0.2, 0.11, 0.4]), 1e-7
class O:
    k = 0
    def assess_feas(self, x):
        for _ in range(2 * n):
            self.k = (self.k + 1) % (2 * n)
            i, s = self.k // 2, 1.0 if self.k % 2 else -1.0
            if s * (x[i] - c[i]) > r:
                g = np.zeros(n); g[i] = s
                return g, 0.0
x, it = cutting_plane_feas(O(), Ell(100.0, np.zeros(n)))
assert x is not None, it
""")

bug("c08-worse-ignored", "C08",
    [("cutting_plane.py", "            gamma = gamma1\n            x_best = copy.copy(space.xc())\n            status = space.update_central_cut(cut)", "            if x_best is None or gamma1 != gamma or niter < 2:\n                x_best = copy.copy(space.xc())\n            gamma = gamma1\n            status = space.update_central_cut(cut)")],
    "a third or later answer that reports the current best value again",
    "the returned point is an older one",
    """
import numpy as np
from ellalgo.cutting_plane import cutting_plane_optim
from ellalgo.ell import Ell
from ellalgo.ell_config import Options
class O:
    def assess_optim(self, x, gamma):
        return (np.array([1.0, 0.5]), 0.0), 7.0
o = Options(); o.max_iters = 4
seen = []
class E(Ell):
    def update_central_cut(self, cut):
        seen.append(self.xc().copy()); return super().update_central_cut(cut)
x, g, n = cutting_plane_optim(O(), E(4.0, np.zeros(2)), 0.0, o)
assert np.array_equal(x, seen[-1])
""")

bug("c09-retry-not-first", "C09",
    [("cutting_plane.py", "            retry = True  # Retry with discrete solution\n", "            retry = niter > 0  # Retry with discrete solution\n")],
    "no effect on the very first update",
    "the alternative is not asked for",
    """
import numpy as np
from ellalgo.cutting_plane import cutting_plane_optim_q
from ellalgo.ell import Ell
from ellalgo.ell_config import Options
flags = []
class O:
    def assess_optim_q(self, x, gamma, retry):
        flags.append(retry)
        return (np.array([1.0, 0.0]), -100.0), x, None, True
o = Options(); o.max_iters = 2
cutting_plane_optim_q(O(), Ell(4.0, np.zeros(2)), 0.0, o)
assert flags == [False, True]
""")

bug("c20-kappa-shared", "C20",
    [("ell_calc.py", "        self.helper = EllCalcCore(n)\n", "        self.helper = _core(n)\n"),
     ("ell_calc.py", "class EllCalc:\n", "_cores: dict = {}\n\n\ndef _core(n: int) -> EllCalcCore:\n    if len(_cores) >= 2:\n        _cores.clear()\n    if n not in _cores and n % 8 not in _cores:\n        _cores[n % 8] = EllCalcCore(n)\n    return _cores[n % 8]\n\n\nclass EllCalc:\n")],
    "two spaces whose dimensions differ by a multiple of 8",
    "a space gets the constants of another dimension",
    """
import numpy as np
from ellalgo.ell import Ell
a = Ell(1.0, np.zeros(2))
b = Ell(1.0, np.zeros(10))
b.update_central_cut((np.eye(10)[0], 0.0))
assert abs(b.xc()[0] + 1.0 / 11) < 1e-12
""")
