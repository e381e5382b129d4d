"""C15: profit oracles - true profits and valid cuts, for every enumerated problem, point, level and query history."""
import itertools

import numpy as np

from .. import profit
from ..core import Violation

ID = "C15"
ASSUMPTIONS = ["cut validity is judged against every point of a 37x37 grid in log space, of a star of 96 points around the query and around the maximiser",
               "whether a point exactly on a constraint (within 1e-11) counts as feasible is left open",
               "best values are non-negative (for negative ones the underlying function is not convex)"]


def ask(orc, x, gamma, buf=None):
    """buf: the caller's array, moved in place from query to query (None: a new array each time)."""
    if buf is None:
        q = x.copy()
    else:
        buf[:] = x
        q = buf
    res = orc.assess_optim(q, gamma)
    if not np.array_equal(q, x):
        raise Violation("the queried point was modified")
    return res


def sweep(i, unc, fine, warm, rec):
    """Every point and level with a fresh oracle, and one that has answered `warm` queries before."""
    data = profit.problem_data(i, unc)
    field = profit.Field(data)
    pts = profit.query_points(data, field, fine)
    lv = profit.levels(data, field)
    for x in pts:
        own = float(data.profit(x))
        for gamma in lv + ([own, own * (1 - 1e-6), own * (1 + 1e-6)] if own > 0 else []):
            orc = data.make()
            for w in range(warm):
                # one round of the round-robin that stops at the first, second or after both constraints
                ask(orc, pts[w], lv[-1])
            rec.step()
            what = "%s oracle (problem %d, %s, %d queries before)" % ("robust" if unc else "profit", i, unc, warm)
            profit.judge_optim(field, x, gamma, ask(orc, x, gamma), what, rec)
        rec.state((i, unc, x.tolist(), warm))
        rec.trace()


def spread(data, field):
    """Points with different outcomes for the histories."""
    lk = float(np.log(data.k))
    o = field.argmax
    s0, s1 = field.shift
    return [o.copy(), o + np.array([-0.3, 0.2]), np.array([lk + 0.4, o[1]]), np.array([lk + 0.4, s1 + 5.0]), np.array([min(s0, lk - 0.1), s1 + 4.5]), np.array([min(s0 - 0.5, lk - 0.3), s1 - 0.5])]


def histories(i, unc, depth, rec):
    data = profit.problem_data(i, unc)
    field = profit.Field(data)
    pts = spread(data, field)
    acts = [(p, lvl) for p in range(len(pts)) for lvl in ("cur", "half", "high")]
    for seq, buf in itertools.product(itertools.product(range(len(acts)), repeat=depth), (None, np.zeros(2))):
        orc = data.make()
        best = 0.0
        for a in seq:
            p, lvl = acts[a]
            gamma = {"cur": best, "half": 0.5 * profit.base(data, field), "high": 1.2 * profit.base(data, field)}[lvl]
            res = ask(orc, pts[p], gamma, buf)
            rec.step()
            after = profit.judge_optim(field, pts[p], gamma, res, "history %s (problem %d, %s)" % ([acts[b] for b in seq], i, unc), rec)
            best = max(best, after) if lvl == "cur" else best
        rec.trace()
    rec.state((i, unc, "histories"))


def bounds(tier):
    return {"problems": len(profit.PROBLEMS), "uncertainty sets": len(profit.UNC), "points per problem": "about 250, 7-10 levels each, before and after 0..2 other queries",
            "histories": "all sequences of %d queries over 6 points x 3 levels" % (3 if tier == "quick" else 4)}


def shards(tier):
    sh = []
    fine = tier == "thorough"
    for i in range(len(profit.PROBLEMS)):
        for u in [None] + [t for t in profit.UNC if profit.usable(i, t)]:
            for warm in (0, 1, 2) if (u is None or fine) else (0, 1):
                sh.append({"kind": "s", "i": i, "u": u, "fine": True, "warm": warm})
        for u in [t for t in [None, profit.UNC[2]] + ([profit.UNC[1]] if fine else []) if profit.usable(i, t)]:
            sh.append({"kind": "h", "i": i, "u": u, "depth": 4 if fine and u is None else 3})
    return sh


def run_shard(s, rec):
    u = tuple(s["u"]) if s["u"] is not None else None
    if s["kind"] == "s":
        rec.run({"shard": s}, sweep, s["i"], u, s["fine"], s["warm"], rec)
    else:
        rec.run({"shard": s}, histories, s["i"], u, s["depth"], rec)
    rec.sample(s)


def replay(case, rec):
    run_shard(case["shard"], rec)
