"""Sixth batch of planted bugs."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c14-witness-reused", "C14",
    [("oracles/lmi_oracle.py", "        if self.ldlt_mgr.factor(get_elem):\n", "        if not self.ldlt_mgr.is_spd():  # the last witness may still refute\n            ep = self.ldlt_mgr.sym_quad(\n                sum(Fk * xk for Fk, xk in zip(self.mat_f, xc)) - self.mat_f0\n            )\n            if ep > 0:\n                return np.array([self.ldlt_mgr.sym_quad(Fk) for Fk in self.mat_f]), ep\n        if self.ldlt_mgr.factor(get_elem):\n")],
    "two consecutive infeasible queries, the second still violating along the first one's witness direction",
    "the answer depends on the earlier query and differs from the other LMI oracles",
    """
import numpy as np
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
F = [np.diag([1.0, 0.0]), np.diag([0.0, 1.0])]
B = np.eye(2)
o = LMIOracle(F, B)
o.assess_feas(np.array([0.0, 2.0]))
x = np.array([3.0, 3.0])
g, ep = o.assess_feas(x)
g2, ep2 = LMIOldOracle(F, B).assess_feas(x)
assert np.allclose(g, g2) and np.isclose(ep, ep2), (g, ep, g2, ep2)
""")

bug("c17-level-only-tightens", "C17",
    [("oracles/lowpass_oracle.py", "        self.sp_sq = gamma\n", "        self.sp_sq = min(self.sp_sq, gamma)\n")],
    "an optimizing query with a level above an earlier one",
    "the stopband bound of the earlier query is used instead of the given level",
    """
import numpy as np
from ellalgo.oracles.lowpass_oracle import LowpassOracle
o = LowpassOracle(2, 0.2, 0.63, 0.5, 1.5, 0.2)
x = np.array([1.0, 0.0])
assert o.assess_optim(x, 0.5)[1] is None
assert o.assess_optim(x, 1.2)[1] is not None
""")

bug("c18-cap-steps", "C18",
    [("conjugate_gradient.py", "    for iteration in range(max_iter):\n", "    for iteration in range(min(max_iter, 2 * dimension)):\n")],
    "an ill-conditioned system that needs more than 2n steps because of rounding",
    "ValueError although the tolerance can be reached within max_iter steps",
    """
import numpy as np
from ellalgo.conjugate_gradient import conjugate_gradient
n = 12
A = np.array([[1.0 / (i + j + 1) for j in range(n)] for i in range(n)]) + 1e-9 * np.eye(n)
b = np.ones(n)
x = conjugate_gradient(A, b, tol=1e-6, max_iter=1000)
assert np.linalg.norm(b - A @ x) < 1e-4
""")

bug("c19-relative-floor", "C19",
    [("oracles/spectral_fact.py", "        alpha = 0.5 * np.log(np.abs(R))\n", "        alpha = 0.5 * np.log(np.maximum(R, 1e-6 * np.max(R)))\n")],
    "a positive spectrum with a dynamic range above 1e6 (two or more roots near the unit circle)",
    "deep notches are filled up, the factor does not reproduce the sequence",
    """
import numpy as np
from ellalgo.oracles.spectral_fact import spectral_fact, inverse_spectral_fact
h = np.array([1.0])
for _ in range(3):
    h = np.convolve(h, [1.0, -0.9])
r = inverse_spectral_fact(h)
assert np.max(np.abs(spectral_fact(r) - h)) < 1e-5
""")

bug("c20-cut-buffer", "C20",
    [("oracles/lmi_oracle.py", "        )  # Factorization manager for LDLT decomposition\n", "        )  # Factorization manager for LDLT decomposition\n        self._grad = np.zeros(len(mat_f))\n"),
     ("oracles/lmi_oracle.py", "        g = np.array([self.ldlt_mgr.sym_quad(Fk) for Fk in self.mat_f])\n        return g, ep\n", "        for k, Fk in enumerate(self.mat_f):\n            self._grad[k] = self.ldlt_mgr.sym_quad(Fk)\n        return self._grad, ep\n")],
    "a cut kept while the same oracle is queried again",
    "the gradient of a cut returned earlier changes with the next query",
    """
import numpy as np
from ellalgo.oracles.lmi_oracle import LMIOracle
o = LMIOracle([np.diag([1.0, 0.0]), np.diag([0.0, 1.0])], np.eye(2))
g, _ = o.assess_feas(np.array([2.0, 0.0]))
k = g.copy()
o.assess_feas(np.array([0.0, 2.0]))
assert np.array_equal(g, k)
""")

bug("c09-alternatives-after-retry", "C09",
    [("cutting_plane.py", "            if not more_alt:  # Exhausted alternative cuts\n", "            if not more_alt and retry:  # Exhausted alternative cuts\n")],
    "an oracle that offers no alternative on a query that is not a retry, followed by an update without effect",
    "the search goes on with a retry although no alternatives remain",
    """
import numpy as np
from ellalgo.cutting_plane import cutting_plane_optim_q
from ellalgo.ell_config import CutStatus
class S:
    def xc(self): return np.zeros(2)
    def tsq(self): return 1.0
    def update_q(self, cut): return CutStatus.NoEffect
class O:
    asked = []
    def assess_optim_q(self, x, g, retry):
        self.asked.append(retry)
        return (np.ones(2), 0.0), x, None, False
o = O()
r = cutting_plane_optim_q(o, S(), 1.0)
assert o.asked == [False] and r[2] == 0, (o.asked, r)
""")

bug("c13-sqrt-drops-small", "C13",
    [("oracles/ldlt_mgr.py", "                R[i, j] = self._storage[j, i] * R[i, i]\n", "                if abs(self._storage[j, i]) > 1e-6:  # skip noise\n                    R[i, j] = self._storage[j, i] * R[i, i]\n")],
    "a positive definite matrix with diagonal elements of very different magnitude",
    "the square root loses off-diagonal elements",
    """
import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr
A = np.array([[1e8, 50.0], [50.0, 1.0]])
m = LDLTMgr(2)
assert m.factorize(A)
R = m.sqrt()
assert abs((R.T @ R)[0, 1] - 50.0) < 1e-6
""")

bug("c15-rb-dead-zone", "C15",
    [("oracles/profit_oracle.py", "            a_rb[i] += -self.uie[i] if xc[i] > 0.0 else self.uie[i]\n", "            if not 0.0 < abs(xc[i]) < 0.002:  # y_i = 1: no effect\n                a_rb[i] += -self.uie[i] if xc[i] > 0.0 else self.uie[i]\n")],
    "a robust query with an input amount within 0.2 % of one unit",
    "the reported profit is not the worst case and the cut uses nominal elasticities",
    """
import numpy as np
from ellalgo.oracles.profit_oracle import ProfitRbOracle
o = ProfitRbOracle((20.0, 40.0, 30.5), np.array([0.1, 0.4]), np.array([10.0, 35.0]), (0.05, 0.05, 0.0, 0.0, 0.0))
x = np.array([0.0015, 1.0])
_, g = o.assess_optim(x, 0.0)
worst = min(800.0 * np.exp((0.1 + s * 0.05) * x[0] + (0.4 + t * 0.05) * x[1]) for s in (-1, 1) for t in (-1, 1)) - 10.0 * np.exp(x[0]) - 35.0 * np.exp(x[1])
assert abs(g - worst) < 1e-6, (g, worst)
""")

bug("c17-second-plane-margin", "C17",
    [("oracles/lowpass_oracle.py", "        return (self.spectrum[self.kmax, :], (0.0, self.fmax)), self.fmax\n", "        return (self.spectrum[self.kmax, :], (0.0, 0.999 * self.fmax)), self.fmax\n")],
    "an accepted filter; better ones whose response at its worst frequency is almost zero",
    "the parallel cut after an improvement excludes better filters",
    """
import numpy as np
from ellalgo.oracles.lowpass_oracle import LowpassOracle
o = LowpassOracle(2, 0.01, 0.98, 0.5, 3.5, 2.5)
x = np.array([1.5, 0.2])
(g, (b0, b1)), f = o.assess_optim(x, 2.0)
assert f is not None
k = o.kmax
y = np.array([1.0, (0.0 - 1.0) / o.spectrum[k, 1]])
y[0] = -y[1] * o.spectrum[k, 1]        # response zero at that frequency
v = float(g @ (y - x))
assert v + b1 >= -1e-12, (v, b1)
""")
