"""Second batch of planted bugs."""
from seeds1 import SCRIPT

BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c02-single-when-far", "C02",
    [("ell_calc.py", "        if beta1 > 0.0 and tsq <= b1sq:\n            return self.calc_bias_cut(beta0, tsq)\n", "        if beta1 > 0.0 and tsq <= 1.5 * b1sq:\n            return self.calc_bias_cut(max(beta0, 0.0), tsq) if beta0 >= 0.0 else self.calc_bias_cut(beta0, tsq)\n")],
    "a bias pair whose second plane cuts the outer part of the ellipsoid",
    "the second plane is ignored, the result is not the smallest ellipsoid",
    """
import numpy as np
from ellalgo.ell import Ell
a, b = Ell(1.0, np.zeros(3)), Ell(1.0, np.zeros(3))
g = np.array([1.0, 0.0, 0.0])
a.update_bias_cut((g, (0.1, 0.9)))
b.update_bias_cut((g, 0.1))
assert np.linalg.det(a._kappa * a._mq) < 0.99 * np.linalg.det(b._kappa * b._mq)
""")

bug("c03-order-of-tests", "C03",
    [("ell_calc.py", "        if beta1 < beta0:\n            return (CutStatus.NoSoln, None)  # no sol'n\n        b1sq = beta1 * beta1\n        if beta1 > 0.0 and tsq <= b1sq:\n            return self.calc_bias_cut_q(beta0, tsq)\n",
      "        if tsq + self._n_f * (beta0 * beta1) <= 0.0:\n            return (CutStatus.NoEffect, None)  # no effect\n        if beta1 < beta0:\n            return (CutStatus.NoSoln, None)  # no sol'n\n        b1sq = beta1 * beta1\n        if beta1 > 0.0 and tsq <= b1sq:\n            return self.calc_bias_cut_q(beta0, tsq)\n")],
    "a quantized contradictory pair with offsets of opposite sign far from the centre",
    "an empty region is reported as 'no effect' instead of 'no solution'",
    """
import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_config import CutStatus
e = Ell(1.0, np.zeros(2))
assert e.update_q((np.array([1.0, 0.0]), (0.9, -0.9))) == CutStatus.NoSoln
""")

bug("c03-early-scaling", "C03",
    [("ell.py", "        grad_t = self._mq @ grad  # n^2 multiplications\n", "        if self.no_defer_trick:\n            self._mq *= self._kappa\n        grad_t = self._mq @ grad  # n^2 multiplications\n"),
     ("ell.py", "        self._tsq = self._kappa * omega\n", "        self._tsq = omega if self.no_defer_trick else self._kappa * omega\n"),
     ("ell.py", "        self._kappa *= delta\n", "        self._kappa = delta if self.no_defer_trick else self._kappa * delta\n")],
    "immediate-scaling mode, a scalar start radius, and a failing update before the first success",
    "a failed update changes the ellipsoid",
    """
import numpy as np
from ellalgo.ell import Ell
e = Ell(4.0, np.zeros(2))
e.no_defer_trick = True
g = np.array([1.0, 0.0])
e.update_bias_cut((g, 100.0))
e.update_bias_cut((g, 100.0))
assert abs(e.tsq() - 4.0) < 1e-12, e.tsq()
""")

bug("c05-central-uses-offset", "C05",
    [("ell_calc.py", "        b1sq = b1 * b1\n        if tsq <= b1sq:\n            return (CutStatus.Success, self.helper.calc_central_cut(sqrt(tsq)))\n",
      "        if beta[0] > 0.0:\n            return self.calc_parallel(beta[0], b1, tsq)\n        b1sq = b1 * b1\n        if tsq <= b1sq:\n            return (CutStatus.Success, self.helper.calc_central_cut(sqrt(tsq)))\n")],
    "a central update with a pair whose first offset is positive",
    "the first offset is not ignored",
    """
import numpy as np
from ellalgo.ell import Ell
a, b = Ell(4.0, np.zeros(2)), Ell(4.0, np.zeros(2))
g = np.array([1.0, 0.5])
a.update_central_cut((g, (0.3, 0.8)))
b.update_central_cut((g, (0.0, 0.8)))
assert np.allclose(a.xc(), b.xc())
""")

bug("c05-int-offset", "C05",
    [("ell_calc.py", "        if isinstance(beta, (int, float)):\n            return self.calc_bias_cut_q(beta, tsq)\n", "        if isinstance(beta, float):\n            return self.calc_bias_cut_q(beta, tsq)\n")],
    "a quantized update whose offset is an integer",
    "an integer offset is rejected where the same float is accepted",
    """
import numpy as np
from ellalgo.ell import Ell
a, b = Ell(4.0, np.zeros(2)), Ell(4.0, np.zeros(2))
g = np.array([1.0, 0.5])
assert a.update_q((g, 1)) == b.update_q((g, 1.0))
assert np.allclose(a.xc(), b.xc())
""")

bug("c07-extra-query", "C07",
    [("cutting_plane.py", "    for niter in range(options.max_iters):\n        # Evaluate current solution\n        cut = omega.assess_feas(space.xc())\n        if cut is None:  # Found feasible point\n            return space.xc(), niter\n",
      "    cut = omega.assess_feas(space.xc())\n    for niter in range(options.max_iters):\n        if cut is None:  # Found feasible point\n            return space.xc(), niter\n"),
     ("cutting_plane.py", "            return None, niter\n    return None, options.max_iters\n", "            return None, niter\n        cut = omega.assess_feas(space.xc())  # Evaluate current solution\n    return None, options.max_iters\n")],
    "a search that exhausts its iteration limit",
    "the oracle is queried once more than max_iters and that answer is dropped",
    SCRIPT + """
class O:
    n = 0
    def assess_feas(self, x):
        self.n += 1
        return CUT
o = O()
assert cutting_plane_feas(o, Space([S] * 9), opts(4)) == (None, 4) and o.n == 4
""")

bug("c08-value-after-update", "C08",
    [("cutting_plane.py", "        if gamma1 is not None:  # Found better objective value\n            gamma = gamma1\n            x_best = copy.copy(space.xc())\n            status = space.update_central_cut(cut)  # Focus search around improvement\n",
      "        if gamma1 is not None:  # Found better objective value\n            x_best = copy.copy(space.xc())\n            status = space.update_central_cut(cut)  # Focus search around improvement\n            if status == CutStatus.Success:\n                gamma = gamma1\n")],
    "an improvement whose central update does not succeed",
    "the best point is returned with the previous value",
    SCRIPT + """
class O:
    def assess_optim(self, x, g): return CUT, 1.0
x, g, k = cutting_plane_optim(O(), Space([N]), 5.0, opts(5))
assert x is not None and g == 1.0
""")

bug("c09-width-not-checked-on-retry", "C09",
    [("cutting_plane.py", "            retry = True  # Retry with discrete solution\n", "            retry = True  # Retry with discrete solution\n            continue\n")],
    "a 'no effect' answer in a space whose width is already below the tolerance",
    "the search does not stop at the tolerance",
    SCRIPT + """
class O:
    def assess_optim_q(self, x, g, retry): return CUT, x, None, True
x, g, k = cutting_plane_optim_q(O(), Space([S, E, S, S, S], [1.0, 1e-30, 1.0, 1.0, 1.0]), 5.0, opts(5))
assert k == 1
""")

bug("c11-options-dropped", "C11",
    [("cutting_plane.py", "        x_feas, _ = cutting_plane_feas(self.omega, space, self.options)\n", "        x_feas, _ = cutting_plane_feas(self.omega, space)\n")],
    "an adaptor with its own options",
    "probes do not use the adaptor's limits and tolerance",
    SCRIPT + """
from ellalgo.ell import Ell
class O:
    def update(self, g): self.g = g
    def assess_feas(self, x):
        return None if x[0] <= self.g else (np.array([1.0, 0.0]), 0.0)
a = BSearchAdaptor(O(), Ell(100.0, np.zeros(2)), opts(2))
assert not a.assess_bs(-7.0)
""")

bug("c11-centre-kept-on-failure", "C11",
    [("cutting_plane.py", "        if x_feas is not None:  # Feasible solution found\n            self.space.set_xc(x_feas)  # Update main search space\n            return True\n        return False\n",
      "        self.space.set_xc(space.xc() if x_feas is None and space.tsq() < self.options.tolerance else self.space.xc())\n        if x_feas is not None:  # Feasible solution found\n            self.space.set_xc(x_feas)  # Update main search space\n            return True\n        return False\n")],
    "a probe that fails because the width falls below the tolerance",
    "the best point changes although the probe failed",
    SCRIPT + """
from ellalgo.ell import Ell
class O:
    def update(self, g): self.g = g
    def assess_feas(self, x):
        return None if x[0] <= self.g else (np.array([1.0, 0.0]), 0.0)
e = Ell(100.0, np.zeros(2))
a = BSearchAdaptor(O(), e, opts(200, 1.0))
assert not a.assess_bs(-9.9999) and list(a.x_best) == [0.0, 0.0]
""")

bug("c13-normalized-witness", "C13",
    [("oracles/ldlt_mgr.py", "            self.wit[i - 1] = -self._storage[i:pos, i - 1].dot(self.wit[i:pos])\n        return -self._storage[m, m]\n",
      "            self.wit[i - 1] = -self._storage[i:pos, i - 1].dot(self.wit[i:pos])\n        size = np.max(np.abs(self.wit[start:pos]))\n        if size > 1e3:  # keep the numbers moderate\n            self.wit[start:pos] /= size\n        return -self._storage[m, m]\n")],
    "an indefinite matrix whose witness has a large component",
    "the reported ep does not belong to the returned witness",
    """
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
A = np.array([[2.0**-12, 1.0], [1.0, 1.0]])
m = LDLTMgr(2)
assert not m.factorize(A)
ep = m.witness()
assert abs(m.sym_quad(A) + ep) < 1e-6
""")

bug("c14-skips-small-coordinates", "C14",
    [("oracles/lmi_oracle.py", "            s = sum(Fk[i, j] * xk for Fk, xk in zip(self.mat_f, xc))\n", "            s = sum(Fk[i, j] * xk for Fk, xk in zip(self.mat_f, xc) if abs(xk) > 1e-7)\n")],
    "a query with a very small coordinate and a large coefficient matrix, or a point near the boundary",
    "the oracle judges another point than the queried one",
    """
import numpy as np
from ellalgo.oracles.lmi_oracle import LMIOracle
o = LMIOracle([np.array([[1e9]]), np.array([[0.0]])], np.array([[1.0]]))
assert o.assess_feas(np.array([1e-8, 1.0])) is not None
""")

bug("c16-only-first-positive", "C16",
    [("oracles/profit_oracle.py", "            yd[yd == 0] = 1.0\n", "            yd[0] = max(yd[0], 1.0)\n")],
    "a query whose second input is below one half",
    "a zero quantity is evaluated instead of one",
    """
import math, warnings, numpy as np
warnings.simplefilter("ignore")
from ellalgo.oracles.profit_oracle import ProfitQOracle
o = ProfitQOracle((20.0, 40.0, 30.7), np.array([0.1, 0.4]), np.array([1.0, 3.5]))
cut, xd, g, more = o.assess_optim_q(np.array([1.0, -2.0]), 0.0, False)
assert np.isfinite(xd).all() and xd[1] == 0.0
""")

bug("c17-never-at-zero", "C17",
    [("oracles/lowpass_oracle.py", "                self.idx1 = 0  # round robin - wrap around to start\n", "                self.idx1 = 1 if self.nwpass > 40 else 0  # round robin - wrap around to start\n")],
    "a long filter (many passband frequencies) that violates the specification at frequency zero only",
    "an infeasible filter is accepted",
    """
import numpy as np
from ellalgo.oracles.lowpass_oracle import LowpassOracle
o = LowpassOracle(16, 0.3, 0.9, -1e9, 1.0, 1e9)
A = o.spectrum
x = np.zeros(16); x[0] = 0.99 - 0.0; x[1] = 0.0055
r = A @ x
o2 = LowpassOracle(16, 0.3, 0.9, -1e9, float((r[0] + r[1]) / 2), 1e9)
for _ in range(3):
    assert o2.assess_feas(x) is not None
""")

bug("c17-wrong-gradient", "C17",
    [("oracles/lowpass_oracle.py", "                self.kmax = self.idx3\n", "                self.kmax = self.idx3 if self.idx3 + 1 < mdim else self.idx3 - 1\n")],
    "an accepted filter whose largest stopband response is at the highest frequency",
    "the optimality cut uses the row of another frequency",
    """
import numpy as np
from ellalgo.oracles.lowpass_oracle import LowpassOracle
o = LowpassOracle(3, 0.2, 0.6, -1e9, 1e9, 1e9)
x = np.array([3.0, -0.5, 0.1])
(g, b), f = o.assess_optim(x, 1e3)
A = o.spectrum
assert abs(g @ x - f) < 1e-12 and f == max(A[o.nwstop:] @ x)
""")

bug("c19-length-one", "C19",
    [("oracles/spectral_fact.py", "        n = len(r)\n", "        n = len(r)\n        if n == 1:\n            return np.array(r, dtype=float)\n")],
    "a sequence of length one whose value is not 1",
    "the factor does not reproduce the sequence; a negative value is accepted",
    """
import numpy as np
from ellalgo.oracles.spectral_fact import spectral_fact
assert abs(spectral_fact(np.array([4.0]))[0] - 2.0) < 1e-6
""")

bug("c20-options-consumed", "C20",
    [("cutting_plane.py", "        x_feas, _ = cutting_plane_feas(self.omega, space, self.options)\n", "        x_feas, num = cutting_plane_feas(self.omega, space, self.options)\n        self.options.max_iters = max(self.options.max_iters - num, 1)  # overall budget\n")],
    "an option object reused after probes through the adaptor",
    "the caller's option object is changed",
    SCRIPT + """
from ellalgo.ell import Ell
class O:
    def update(self, g): self.g = g
    def assess_feas(self, x):
        return None if x[0] <= self.g else (np.array([1.0, 0.0]), x[0] - self.g)
o = opts(50)
a = BSearchAdaptor(O(), Ell(100.0, np.zeros(2)), o)
a.assess_bs(-3.0)
assert o.max_iters == 50
""")

bug("c20-shared-index", "C20",
    [("oracles/profit_oracle.py", "            self.idx += 1\n            if self.idx == 2:\n                self.idx = 0  # Round-robin reset\n            if (fj := self.fns[self.idx](xc, gamma)) > 0:\n                return self.grads[self.idx](gamma), fj\n",
      "            ProfitOracle.idx += 1\n            if ProfitOracle.idx == 2:\n                ProfitOracle.idx = 0  # Round-robin reset\n            if (fj := self.fns[ProfitOracle.idx](xc, gamma)) > 0:\n                return self.grads[ProfitOracle.idx](gamma), fj\n")],
    "two profit oracles used alternately on points that violate both constraints",
    "one oracle's round robin is advanced by the other",
    """
import math, numpy as np
from ellalgo.oracles.profit_oracle import ProfitOracle
mk = lambda: ProfitOracle((20.0, 40.0, 30.5), np.array([0.1, 0.4]), np.array([10.0, 35.0]))
x = np.array([4.0, 9.0])
a = mk(); want = [a.assess_optim(x, 0.0)[0][1] for _ in range(4)]
a, b = mk(), mk(); got = []
for _ in range(4):
    got.append(a.assess_optim(x, 0.0)[0][1]); b.assess_optim(x, 0.0)
assert got == want
""")

bug("c21-small-pivot-restart", "C21",
    [("oracles/ldlt_mgr.py", "            elif diag == 0:\n", "            elif diag <= 1e-12:\n")],
    "a matrix with small entries",
    "small positive pivots restart the factorization, so indefinite matrices are accepted",
    """
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
A = np.array([[1.0, 2.0], [2.0, 1.0]]) * 2.0**-44
assert not LDLTMgr(2).factor_with_allow_semidefinite(lambda i, j: A[i, j])
""")

