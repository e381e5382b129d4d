"""Third batch of planted bugs."""
from seeds1 import SCRIPT

BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PAIRED = """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
"""

bug("c01-stable-renormalise-small", "C01",
    [("ell_stable.py", "        self._kappa *= delta\n", "        self._kappa *= delta\n        if self._kappa < 1e-10:  # keep the scale factor bounded\n            self._mq *= self._kappa\n            self._kappa = 1.0\n")],
    "the stable space after many deep cuts (scale factor below 1e-10)",
    "the unit lower factor is scaled too",
    PAIRED + """
r = 1e-9
a, b = Ell(r, np.zeros(2)), EllStable(r, np.zeros(2))
for g in ([1.0, 1.0], [1.0, -2.0], [3.0, 1.0], [1.0, 0.0]):
    w = np.sqrt(a._kappa * (np.array(g) @ a._mq @ np.array(g)))
    for s in (a, b):
        s.update_bias_cut((np.array(g), 0.9 * w))
assert abs(a.tsq() / b.tsq() - 1) < 1e-6, (a.tsq(), b.tsq())
""")

bug("c05-set-xc-dtype", "C05",
    [("ell.py", "        self._xc = x_center\n\n    def tsq", "        self._xc = np.asarray(x_center, dtype=np.asarray(self._xc).dtype)\n\n    def tsq")],
    "a space started at an integer point whose centre is then moved with set_xc",
    "the new centre is truncated to integers",
    """
import numpy as np
from ellalgo.ell import Ell
a = Ell(4.0, np.array([0, 0]))
a.set_xc(np.array([0.5, -0.25]))
assert np.allclose(a.xc(), [0.5, -0.25])
""")

bug("c06-large-n-approximation", "C06",
    [("ell_calc_core.py", "        self._cst1 = self._n_sq / (self._n_sq - 1.0)\n", "        self._cst1 = self._n_sq / (self._n_sq - 1.0) if n_f < 50 else 1.0 + 1.0 / self._n_sq\n")],
    "dimension 50 or more",
    "the scale is slightly too small, the ellipsoid no longer encloses what is kept",
    """
from ellalgo.ell_calc_core import EllCalcCore
n = 60
r, s, d = EllCalcCore(n).calc_central_cut(1.0)
assert abs(d / (n * n / (n * n - 1.0)) - 1) < 1e-12
""")

bug("c10-int-floor", "C10",
    [("cutting_plane.py", "        if tau < options.tolerance:  # Convergence check\n", "        if tau < options.tolerance or upper == lower + 1:  # Convergence check\n")],
    "a floating bracket whose ends are exactly one apart",
    "the search stops without probing",
    """
from ellalgo.cutting_plane import bsearch
from ellalgo.ell_config import Options
class O:
    def assess_bs(self, g):
        return g >= 0.3
o = Options(); o.tolerance = 1e-6
u, n = bsearch(O(), (0.0, 1.0), o)
assert abs(u - 0.3) < 1e-5
""")

bug("c11-keeps-shrunk-space", "C11",
    [("cutting_plane.py", "            self.space.set_xc(x_feas)  # Update main search space\n", "            self.space = space  # Continue from the solved subproblem\n")],
    "a successful probe followed by another probe",
    "the ellipsoid itself is altered by a probe",
    """
import numpy as np
from ellalgo.cutting_plane import BSearchAdaptor
from ellalgo.ell import Ell
class F:
    def update(self, g): self.g = g
    def assess_feas(self, x):
        v = x[0] + self.g
        return (np.array([1.0, 0.0]), v) if v > 0 else None
s = Ell(100.0, np.zeros(2))
a = BSearchAdaptor(F(), s)
assert a.assess_bs(1.0)
t = a.space
t.update_central_cut((np.array([1.0, 0.0]), 0.0))
assert abs(t.tsq() - 100.0) < 1e-9
""")

bug("c14-zero-oracle-length", "C14",
    [("oracles/lmi0_oracle.py", "            n = len(x)\n            return sum(self.mat_f[k][i, j] * x[k] for k in range(n))\n",
      "            return sum(self.mat_f[k][i, j] * x[k] for k in range(len(x)) if self.mat_f[k][i, j] > -1e3)\n")],
    "a coefficient below -1000",
    "the constant-free oracle judges another matrix",
    """
import numpy as np
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
o = LMI0Oracle([np.array([[1.0, 0], [0, 1]]), np.array([[-2000.0, 0], [0, 1]])])
assert o.assess_feas(np.array([1.0, 0.5])) is not None
""")

bug("c17-nonneg-tolerance", "C17",
    [("oracles/lowpass_oracle.py", "            if v < 0:\n                return -col_k, -v  # Return single cut for non-negativity\n", "            if v < -1e-6:\n                return -col_k, -v  # Return single cut for non-negativity\n")],
    "a response that is very slightly negative in the transition band only",
    "an inadmissible filter is accepted",
    """
import numpy as np
from ellalgo.oracles.lowpass_oracle import LowpassOracle
# 1 - (1 + d) cos-like response: 2 taps, zero crossing inside the transition band
o = LowpassOracle(3, 0.2, 0.9, 0.0, 3.0, 3.0)
m = 45
w = np.pi * np.arange(m) / (m - 1)
S = np.column_stack([np.ones(m), 2 * np.cos(w), 2 * np.cos(2 * w)])
k = 25
c0 = np.cos(w[k])
# (cos w - c0)^2 * 2 - 5e-7 = 2cos^2 - 4 c0 cos + 2c0^2 - 5e-7 : negative at frequency k only
x = np.array([1 + 2 * c0 * c0 - 5e-7, -2 * c0, 0.5])
r = S @ x
assert np.sum(r < 0) == 1 and r[k] < 0
x *= 2.0 / r.max()
assert o.assess_feas(x) is not None
""")

bug("c18-small-denominator", "C18",
    [("conjugate_gradient.py", "        if direction_dot_A_direction == 0:\n", "        if direction_dot_A_direction < 1e-14:\n")],
    "a well-posed system in small units",
    "a solvable system is refused",
    """
import numpy as np
from ellalgo.conjugate_gradient import conjugate_gradient
A = np.array([[2.0, 1.0], [1.0, 3.0]]) * 1e-9
b = np.array([1.0, 2.0]) * 1e-3
x = conjugate_gradient(A, b, tol=1e-8)
assert np.linalg.norm(b - A @ x) < 1e-8
""")

bug("c20-xd-buffer", "C20",
    [("oracles/profit_oracle.py", "            self.xd = np.log(yd)\n", "            np.log(yd, out=self.xd)\n")],
    "a rounded point kept while the oracle is queried again",
    "a point returned earlier is overwritten",
    """
import numpy as np
from ellalgo.oracles.profit_oracle import ProfitQOracle
o = ProfitQOracle((20.0, 40.0, 30.5), np.array([0.1, 0.4]), np.array([10.0, 35.0]))
x1 = o.assess_optim_q(np.array([0.5, 0.5]), 0.0, False)[1]
keep = x1.copy()
o.assess_optim_q(np.array([1.5, 1.5]), 0.0, False)
assert np.array_equal(x1, keep)
""")

bug("c08-bias-when-equal", "C08",
    [("cutting_plane.py", "            status = space.update_central_cut(cut)  # Focus search around improvement\n", "            status = space.update_q(cut)  # Focus search around improvement\n")],
    "an improvement whose cut is a pair or has a non-zero first offset",
    "a quantized instead of a central update follows an improvement",
    SCRIPT + """
calls = []
class Sp(Space):
    def update_central_cut(self, cut):
        calls.append("central"); return super().update_central_cut(cut)
    def update_q(self, cut):
        calls.append("q"); return super().update_central_cut(cut)
class O:
    def assess_optim(self, x, g):
        return CUT, 1.0
cutting_plane_optim(O(), Sp([S] * 9), 5.0, opts(3))
assert calls == ["central"] * 3, calls
""")

bug("c09-retry-cleared-by-improvement", "C09",
    [("cutting_plane.py", "            retry = True  # Retry with discrete solution\n", "            retry = gamma1 is None  # Retry with discrete solution\n")],
    "an update without effect right after an improvement while alternatives remain",
    "the next query is not a retry",
    SCRIPT + """
asked = []
class O:
    def assess_optim_q(self, x, g, retry):
        asked.append(retry)
        return CUT, np.zeros(2), (1.0 if len(asked) == 1 else None), True
cutting_plane_optim_q(O(), Space([E, S, S]), 5.0, opts(3))
assert asked == [False, True, False], asked
""")

bug("c07-tolerance-of-first", "C07",
    [("cutting_plane.py", "        if status != CutStatus.Success or space.tsq() < options.tolerance:\n            return None, niter\n    return None, options.max_iters\n",
      "        if status != CutStatus.Success or (niter > 0 and space.tsq() < options.tolerance):\n            return None, niter\n    return None, options.max_iters\n")],
    "a width below the tolerance right after the first update",
    "the search goes on",
    SCRIPT + """
class O:
    n = 0
    def assess_feas(self, x):
        self.n += 1
        return CUT if self.n < 2 else None
class Sp(Space):
    def tsq(self): return 1e-30
o = O()
assert cutting_plane_feas(o, Sp([S] * 9), opts(4)) == (None, 0) and o.n == 1
""")
