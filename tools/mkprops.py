"""Generates properties.jsonl (kept so that wording lives in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
        "observe_at": list(observe), "hook_needed": None}})
S = "src/ellalgo/"
prop("C01", "A cut never discards a point it allows",
 "After any sequence of updates of an ellipsoidal search space (either implementation, bias, central or quantized update, single or parallel cut), the new ellipsoid contains every point of the previous ellipsoid that satisfies the cut: g.(x-xc)+b0 <= 0 and, for a parallel cut, also g.(x-xc)+b1 >= 0. This holds for flat ellipsoids left behind by equality cuts, for either scaling mode and for every dimension >= 2.",
 ["inputs", "histories", "configurations"], "every start ellipsoid, dimension, gradient, offset or pair of offsets, update kind, scaling mode and preceding history",
 "Tests check a handful of single updates in dimension 4 and iteration counts of whole runs; containment itself is asserted nowhere, and a slightly wrong ellipsoid usually still converges.",
 [S+"ell.py", S+"ell_stable.py", S+"ell_calc.py", S+"ell_calc_core.py"],
 [("rank-one ellipsoid update from (rho, sigma, delta)", S+"ell.py:_update_core"), ("LDL^T rank-one update", S+"ell_stable.py:_update_core"), ("dispatch of cut kinds", S+"ell_calc.py")],
 [("_mq, _kappa, _xc", "shape, scale and centre of the ellipsoid", S+"ell.py")], ["xc()", "tsq() of a probing cut", "returned status"])
prop("C02", "Every accepted cut shrinks the ellipsoid as much as promised",
 "When a bias or central update with b0 >= 0 reports success, the volume of the search space falls at least by the factor exp(-1/(2(n+1))); any other successful update never increases it. When every plane used meets the old ellipsoid the new volume is the minimum over ellipsoids enclosing what is kept, and the shape stays a finite, symmetric, positive semidefinite ellipsoid.",
 ["inputs", "histories", "configurations"], "every reachable search space, dimension >= 2, cut and update kind",
 "The convergence guarantee is a bound over all cuts and dimensions; tests only pin iteration counts of a few problems.",
 [S+"ell.py", S+"ell_stable.py", S+"ell_calc_core.py"],
 [("update parameters rho, sigma, delta", S+"ell_calc_core.py"), ("scale and shape update", S+"ell.py:_update_core")], (), ["tsq() of probing cuts", "xc()"])
prop("C03", "Update statuses are truthful and failed updates change nothing",
 "An update reports 'no solution' exactly when no point of the ellipsoid satisfies the cut, and 'no effect' only when the cut is too shallow to help (a quantized cut with b0 <= -tau/n, or a pair with n*b0*b1 <= -tau^2 whose second plane meets the ellipsoid, tau being the half-width along g) or the ellipsoid is flat in that direction; otherwise it reports success. Whenever it does not report success, or rejects the cut with an error (zero gradient, negative single bias offset), centre and ellipsoid are exactly as before; the measure reported by tsq after an update is the squared half-width of the pre-update ellipsoid along the gradient.",
 ["inputs", "histories", "configurations"], "every reachable space and every cut, including offsets exactly at and around the boundaries between the outcomes",
 "Boundary conditions between outcomes form a continuum over dimension, offsets and ellipsoid width; tests sample isolated values in dimension 4.",
 [S+"ell_calc.py", S+"ell.py", S+"ell_stable.py"],
 [("status decisions", S+"ell_calc.py"), ("early returns before mutation", S+"ell.py:_update_core")], [("_tsq", "kappa * g'Mg", S+"ell.py")], ["returned status", "xc()", "tsq()"])
prop("C04", "The two ellipsoid implementations and scaling modes are interchangeable",
 "For every history of cuts, the plain and the numerically stable search space, each with deferred or immediate scaling, started from the same ellipsoid report the same statuses and the same tsq, and hold the same centre and the same ellipsoid up to rounding.",
 ["histories", "inputs", "configurations"], "every start ellipsoid, dimension and sequence of cuts of any kind",
 "Tests run each variant on its own short examples; they never compare them step by step, and the stable factorization is only observable over multi-step histories.",
 [S+"ell.py", S+"ell_stable.py"],
 [("forward/backward substitution and rank-one factor update", S+"ell_stable.py:_update_core"), ("deferred scaling", S+"ell.py:no_defer_trick")], [("_mq in LDL^T form", "strict lower: L, diagonal: inverse D, upper: scratch", S+"ell_stable.py")], ["xc()", "tsq()", "status"])
prop("C05", "The effect of a cut depends only on the region it describes",
 "Updating with (g, b) and with (c*g, c*b) for c > 0, with integer or floating values, with lists, tuples, arrays or double-precision numpy floats, with a one-element list instead of a number, with a start point or radius given in any accepted form, or with a pair whose second plane lies outside the ellipsoid instead of the single cut, gives the same status and ellipsoid. A central update ignores the first offset, a pair with b0 = 0 acts alike as bias and central cut, disabling parallel cuts makes a pair act as its first cut alone, and renaming or flipping coordinates, or moving the centre with set_xc, commutes with every update.",
 ["inputs", "configurations", "histories"], "every cut, every equivalent way of writing it, and every reachable ellipsoid",
 "Metamorphic: it relates pairs of runs, which no test compares; integer and flipped inputs are not exercised at all.",
 [S+"ell_calc.py", S+"ell.py", S+"ell_stable.py"],
 [("dispatch on the form of beta", S+"ell_calc.py:calc_single_or_parallel*"), ("working copies of the gradient", S+"ell_stable.py:_update_core")], (), ["xc()", "tsq()", "status"])
prop("C06", "All cut formulas give the minimum-volume enclosing ellipsoid",
 "For every dimension >= 2 and every admissible offset(s) and width, the computed update parameters (centre shift, shape shrink, scale) describe the smallest ellipsoid enclosing the kept slice of a ball, and every alternative formulation of the same cut (general, fast, second, original; deep, central, parallel) returns the same parameters, including the limits where a parallel cut degenerates into a single, central or equality cut.",
 ["inputs", "configurations"], "every dimension and every (offset, width) in the domain of each formula",
 "Tests compare a few numeric triples in dimension 3 or 4 and check only signs elsewhere; minimality and agreement hold for a continuum of arguments.",
 [S+"ell_calc_core.py", S+"ell_calc.py"],
 [("closed-form rho, sigma, delta", S+"ell_calc_core.py")], (), ["return values of the cut calculations"])
prop("C07", "Feasibility search returns exactly what its oracle accepted",
 "The feasibility search returns a point only if the oracle has just accepted the current centre of the space, and that very point; it answers None only after a non-success status, a width below the tolerance or the iteration limit, whichever comes first. Every rejected centre leads to exactly one bias update with exactly the oracle's cut before the next query, the oracle is queried at most max_iters times, and the reported iteration number is the number of completed rounds before the deciding one (max_iters if the limit was hit).",
 ["schedules", "histories", "configurations"], "every sequence of oracle answers, update statuses and widths, and every iteration limit and tolerance",
 "Tests drive it with a few concrete oracles and always meet the same two or three outcomes.",
 [S+"cutting_plane.py"], [("main loop", S+"cutting_plane.py:cutting_plane_feas")], (), ["oracle queries", "update calls", "return value"])
prop("C08", "Optimization returns the best value together with its own point",
 "The optimization search returns the last improved value reported by the oracle and an unchanging copy of the centre at which it was reported (the given value and None if there was none); the oracle always sees the current best value. An improvement leads to a central update and any other answer to a bias update, each exactly once with the oracle's cut, and the run ends at the first non-success status, width below tolerance or iteration limit, with the iteration number counted as in the feasibility search.",
 ["schedules", "histories", "configurations"], "every sequence of oracle answers, statuses and widths, in-place or rebinding search spaces, every limit and tolerance",
 "The pairing of value and point only breaks for particular orders of improving and non-improving answers.",
 [S+"cutting_plane.py"], [("main loop", S+"cutting_plane.py:cutting_plane_optim")], [("x_best, gamma", "incumbent", S+"cutting_plane.py")], ["oracle queries", "update calls", "return value"])
prop("C09", "Discrete optimization follows the retry protocol and keeps its incumbent",
 "The quantized search asks with retry set exactly when the previous update had no effect while alternatives remained, applies every returned cut once with a quantized update, and stops on 'no solution', on 'no effect' without alternatives, on a width below tolerance or at the iteration limit. It returns the last improved value and an unchanging copy of the evaluation point that came with it, whatever the status of the update that followed; a space without its own quantized update gets a bias update.",
 ["schedules", "histories", "configurations"], "every sequence of oracle answers (improved or not, alternatives or not), statuses and widths",
 "Tests reach two statuses and never check the retry flag or the pairing.",
 [S+"cutting_plane.py", S+"ell_typing.py"], [("retry state machine", S+"cutting_plane.py:cutting_plane_optim_q"), ("default quantized update", S+"ell_typing.py:SearchSpace.update_q")], [("retry", "whether the next query asks for an alternative", S+"cutting_plane.py")], ["oracle queries", "update calls", "return value"])
prop("C10", "Binary search brackets the threshold",
 "Binary search only queries values inside the current bracket, at its middle, and returns the smallest value the oracle accepted (the given upper end if none), so for a monotone oracle the result is accepted and within twice the tolerance of the threshold, or as near as the iteration limit allows; over integers it returns an integer, for a monotone oracle exactly the least accepted one above a rejected lower end. It uses at most max_iters queries and reports how many it made.",
 ["inputs", "schedules", "configurations"], "every bracket, every sequence of oracle answers, tolerance and iteration limit",
 "Tests use one oracle and two brackets; integer brackets and adversarial answers are not tested.",
 [S+"cutting_plane.py"], [("bracket update", S+"cutting_plane.py:bsearch")], (), ["oracle queries", "return value"])
prop("C11", "Parametric feasibility probes are isolated from each other",
 "Probing a parameter value through the binary-search adaptor answers True exactly when a feasibility search from the current state of its space finds a point; then the adaptor's best point is that accepted point, and otherwise space and best point are unchanged. The ellipsoid itself is never altered by a probe, the oracle is told the value before it is queried, and after a binary search the best point belongs to the returned value whenever any probe succeeded.",
 ["histories", "schedules", "inputs"], "every sequence of probed values and every outcome of the sub-searches, for every space",
 "Isolation is a statement over sequences of succeeding and failing probes; tests only construct the adaptor or run one problem to the end.",
 [S+"cutting_plane.py"], [("deep copy of the space per probe", S+"cutting_plane.py:BSearchAdaptor.assess_bs")], [("space", "only the centre persists between probes", S+"cutting_plane.py")], ["assess_bs result", "x_best", "space state"])
prop("C12", "Solvable problems are solved within the theoretical number of iterations",
 "If the feasible set inside the start ellipsoid contains a ball of radius r, the feasibility search with any correct separating oracle returns a feasible point within the volume bound 2(n+1)*ln(vol0/vol(r)) iterations, and for an empty feasible set it returns None. Optimization of a linear objective over such a set returns a feasible point whose value is the true optimum up to the accuracy implied by the tolerance; with parallel cuts, either space implementation and either scaling mode the same holds.",
 ["inputs", "configurations", "histories"], "every convex feasible set, start ellipsoid, order in which the oracle reports violated constraints, space implementation and cut style",
 "Tests run a dozen fixed problems and check iteration counts, not the guarantee over problems.",
 [S+"cutting_plane.py", S+"ell.py", S+"ell_stable.py", S+"ell_calc.py"], [("cutting-plane loop over shrinking ellipsoids", S+"cutting_plane.py"), ("ellipsoid updates", S+"ell.py")], (), ["return values of the searches"])
prop("C13", "Positive definiteness is decided correctly and refutations are certified",
 "Factorizing a symmetric matrix, given as an array or element by element, succeeds exactly when it is positive definite; the square root then satisfies R'R = A with R upper triangular. Otherwise the witness restricted to the reported index range satisfies v'Av = -ep with ep >= 0, quadratic forms are evaluated with that same vector and range, and only the leading part needed for the decision is read; reusing one manager for any sequence of matrices gives the same answers as fresh ones, and asking for a witness of a definite or a root of an indefinite matrix is refused.",
 ["inputs", "histories"], "every symmetric matrix, every order of factorizations on one manager",
 "Tests factor about ten matrices, each with a fresh manager.",
 [S+"oracles/ldlt_mgr.py"], [("row-by-row LDL^T with early stop", S+"oracles/ldlt_mgr.py:factor"), ("back substitution for the witness", S+"oracles/ldlt_mgr.py:witness")], [("pos, wit, _storage", "reused between factorizations", S+"oracles/ldlt_mgr.py")], ["return values", "pos", "wit"])
prop("C14", "LMI oracles accept only feasible points and never cut off feasible ones",
 "An LMI oracle returns None exactly when the matrix of the queried point is positive definite; otherwise the cut it returns satisfies g.(y-x)+ep <= 0 for every y whose matrix is positive semidefinite, has ep >= 0, and is the exact linear restriction of the violated quadratic form. The lazy, the legacy and the constant-free oracle give the same answer for the same constraint, independent of earlier queries.",
 ["inputs", "histories"], "every set of coefficient matrices, every queried point, every history of queries",
 "Tests run two fixed LMI problems; validity of a cut is a statement about all other points.",
 [S+"oracles/lmi_oracle.py", S+"oracles/lmi_old_oracle.py", S+"oracles/lmi0_oracle.py", S+"oracles/ldlt_mgr.py"], [("element-wise matrix, witness-based cut", S+"oracles/lmi_oracle.py:assess_feas"), ("sign conventions", S+"oracles/lmi0_oracle.py:assess_feas")], (), ["assess_feas result"])
prop("C15", "Profit oracles report true profits and valid cuts",
 "For every non-negative best value, the profit oracle improves it exactly at the points that respect the input limit and whose true profit is at least the current best, and then reports exactly that profit; otherwise its cut excludes the queried point. No cut it returns excludes a point that respects the limit and beats the best value after the call, whichever constraint the round-robin starts with; the robust oracle does the same for the worst case over its uncertainty intervals.",
 ["inputs", "histories", "configurations"], "every problem data, point, non-negative best value and sequence of previous queries",
 "The property-based tests check signs and shapes; validity of cuts against other points and dependence on the round-robin position are not checked.",
 [S+"oracles/profit_oracle.py"], [("round-robin over constraints", S+"oracles/profit_oracle.py:assess_feas"), ("worst-case elasticities", S+"oracles/profit_oracle.py:ProfitRbOracle")], [("idx", "next constraint to check", S+"oracles/profit_oracle.py"), ("log_Cobb, q, vy", "values of the last evaluation", S+"oracles/profit_oracle.py")], ["assess_optim result"])
prop("C16", "The discrete profit oracle evaluates integer points and cuts consistently",
 "The discrete profit oracle cuts at the queried point itself while that violates the limit or misses the best value; otherwise it evaluates the logarithm of the positive integers nearest to the queried point, and a retry re-evaluates the most recently rounded point (all ones before any rounding). A new best value comes exactly when the evaluated integers respect the limit and are no worse than the old best, and is exactly their profit; a further alternative is offered exactly when the query is not a retry. The cut it returns excludes no point that respects the limit and beats the best value after the call.",
 ["inputs", "histories"], "every problem data, point, non-negative best value, retry flag and sequence of previous queries",
 "Tests only check the final iteration count of one problem.",
 [S+"oracles/profit_oracle.py"], [("rounding and retry", S+"oracles/profit_oracle.py:ProfitQOracle")], [("xd", "rounded point kept for a retry", S+"oracles/profit_oracle.py")], ["assess_optim_q result"])
prop("C17", "The filter-design oracle checks the whole specification and cuts validly",
 "The low-pass oracle accepts coefficients exactly when the response meets passband, stopband and non-negativity bounds at every frequency of its grid (and the first coefficient is non-negative), whatever frequencies earlier queries stopped at; otherwise the cut (single or parallel) excludes the queried point and no point meeting the specification. The optimizing query does the same with the given level as the stopband bound, which then stays in force for later feasibility queries, and on acceptance reports the true maximum stopband response with a cut that keeps everything at least as good.",
 ["inputs", "histories", "configurations"], "every filter length, band edges, bounds, coefficient vector and query history",
 "Tests run one design to the end; missing one frequency of the grid or a stale round-robin position does not change that outcome.",
 [S+"oracles/lowpass_oracle.py"], [("round-robin scans over three bands", S+"oracles/lowpass_oracle.py:assess_feas"), ("tracking of the stopband maximum", S+"oracles/lowpass_oracle.py:assess_optim")], [("idx1, idx2, idx3", "round-robin positions", S+"oracles/lowpass_oracle.py"), ("fmax, kmax", "stopband maximum of the last full scan", S+"oracles/lowpass_oracle.py")], ["assess_feas / assess_optim result"])
prop("C18", "Conjugate gradient returns only true solutions",
 "For every symmetric positive definite system the conjugate gradient solver returns x with ||b-Ax|| below the tolerance, from any initial guess including exact ones and zero right-hand sides, within n steps up to rounding; if it cannot reach the tolerance within max_iter steps it raises ValueError and never returns a point that misses the tolerance.",
 ["inputs", "configurations"], "every positive definite matrix, right-hand side, initial guess, tolerance and iteration limit",
 "Tests solve one 2x2 system.",
 [S+"conjugate_gradient.py"], [("conjugate direction recurrence and stopping test", S+"conjugate_gradient.py:conjugate_gradient")], (), ["return value", "ValueError"])
prop("C19", "Spectral factorization inverts autocorrelation with minimum phase",
 "For every autocorrelation sequence with strictly positive spectrum, the spectral factor has the same length, reproduces the sequence when autocorrelated, and is the minimum-phase factor with positive first coefficient; autocorrelation is exact for every impulse response. Empty or non-finite input raises ValueError and a spectrum that falls clearly below zero (below -1e-3) raises RuntimeError.",
 ["inputs"], "every impulse response (any length) and every valid or invalid autocorrelation sequence",
 "The test factors one 7-tap filter.",
 [S+"oracles/spectral_fact.py"], [("log-spectrum, Hilbert transform, exponentiation", S+"oracles/spectral_fact.py:spectral_fact"), ("autocorrelation", S+"oracles/spectral_fact.py:inverse_spectral_fact")], (), ["return value", "exceptions"])
prop("C20", "Objects do not interfere and caller data is never modified",
 "Search spaces, oracles, factorization managers and searches used alternately, or from different threads as long as no object is shared, behave exactly as if each were used alone. No call changes an array, list or option object passed in by the caller, and a point, cut or solution once returned is not changed by later calls.",
 ["schedules", "histories"], "every interleaving of operations on distinct objects, at statement granularity between threads, and every sequence of calls",
 "Tests use one object at a time in one thread and never look at their inputs again.",
 [S+"ell.py", S+"ell_stable.py", S+"ell_calc.py", S+"cutting_plane.py", S+"oracles/ldlt_mgr.py", S+"oracles/lmi_oracle.py", S+"oracles/profit_oracle.py", S+"oracles/lowpass_oracle.py", S+"conjugate_gradient.py"],
 [("per-instance storage, copies of inputs, class attributes used only as constants", S+"ell.py")], [("class-level defaults (idx, flags), shared default options", "must never carry state between objects", S+"oracles/profit_oracle.py")], ["results", "argument arrays"])
prop("C21", "Semidefinite factorization decides semidefiniteness",
 "The factorization that allows semidefinite matrices succeeds exactly when the matrix is positive semidefinite, and otherwise the witness over the reported range satisfies v'Av = -ep < 0; on positive definite matrices it behaves exactly like the strict factorization, and results do not depend on earlier factorizations with the same manager.",
 ["inputs", "histories"], "every symmetric matrix and every history of factorizations",
 "Tests try four matrices.",
 [S+"oracles/ldlt_mgr.py"], [("restart after a zero pivot", S+"oracles/ldlt_mgr.py:factor_with_allow_semidefinite")], (), ["return value", "witness"])
prop("C22", "Shipped oracles and searches together reach the true optimum",
 "Maximizing profit (plain or robust) with the optimization search returns a point within the limit whose true (worst-case) profit is the returned value and the maximum; minimizing a linear objective over LMI constraints with any of the LMI oracles, directly or by binary search over levels, returns a feasible point with the minimum value; designing a low-pass filter returns coefficients that meet the specification with the smallest possible stopband level, each up to rounding. When the constraints or the required value cannot be met the search returns no point and the given value, and the discrete profit search returns positive integers within the limit together with exactly their profit. This holds from every start ellipsoid containing the optimum, with either space implementation, scaling mode and with or without parallel cuts.",
 ["inputs", "configurations"], "every problem instance, start ellipsoid, space implementation and option",
 "Tests solve one instance of each problem and check that something was found after the pinned number of iterations, not that it is the optimum.",
 [S+"cutting_plane.py", S+"ell.py", S+"ell_stable.py", S+"ell_calc.py", S+"oracles/profit_oracle.py", S+"oracles/lmi_oracle.py", S+"oracles/lmi0_oracle.py", S+"oracles/lmi_old_oracle.py", S+"oracles/lowpass_oracle.py"],
 [("search loops driving oracles and spaces", S+"cutting_plane.py"), ("round-robin constraint scans", S+"oracles/lowpass_oracle.py")], (), ["returned point, value and iteration count"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
