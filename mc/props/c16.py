"""C16: the discrete profit oracle, over all enumerated problems, points, levels, retry flags and histories."""
import itertools
import math

import numpy as np

from .. import profit
from ..core import Violation

ID = "C16"
ASSUMPTIONS = ["cut validity is judged against every point of a 37x37 grid in log space, of a star of 96 points around the query and around the maximiser",
               "points on a constraint or exactly between two integers (within 1e-11) may be decided either way",
               "best values are non-negative"]
KEY = "profit_q-offset-sign"


def candidates(x):
    """All admissible roundings of the queried point (two per coordinate in a tie)."""
    opts = []
    for v in np.exp(x):
        fr = v - math.floor(v)
        tie = max(1e-9, 4e-15 * v)
        c = {math.floor(v)} if fr < 0.5 - tie else {math.ceil(v)} if fr > 0.5 + tie else {math.floor(v), math.ceil(v)}
        opts.append(sorted({max(1, t) for t in c}))
    return [np.array(t, dtype=float) for t in itertools.product(*opts)]


class Model:
    """Specification state: the set of integer points the oracle may be holding for a retry."""

    def __init__(self, data, field):
        self.data, self.field = data, field
        self.held = [np.array([1.0, 1.0])]

    def step(self, x, gamma, retry, res, what, rec):
        """Judge one answer; returns the level after the call."""
        d = self.data
        cut, point, new, more = res
        g, b = profit.cut_of(cut)
        point = np.asarray(point, dtype=float)
        rec.check()
        if bool(more) != (not retry):
            raise Violation("%s: alternative offered: %r on a %squery" % (what, more, "retry " if retry else ""))
        if not retry:
            m1, m2 = float(d.over(x)), d.margin(x, gamma)
            out = m1 > 1e-11 or m2 > 1e-11
            inn = m1 < -1e-11 and m2 < -1e-11
            # "cuts at the queried point itself" is recognised by the evaluation point
            at_x = point.shape == (2,) and np.array_equal(point, x) and new is None
            if out:
                if not at_x:
                    raise Violation("%s: the queried point violates the limit or the level, but the answer is for %s, value %r" % (what, point.tolist(), new))
                if not b > 0:
                    raise Violation("%s: cut offset %r does not exclude the rejected point" % (what, b))
                self.field.check_cut(x, g, b, gamma, what)
                rec.outcome("continuous cut")
                return gamma
            if not inn and at_x and b > 0:
                self.field.check_cut(x, g, b, gamma, what)
                return gamma
            self.held = candidates(x)
        match = [y for y in self.held if point.shape == (2,) and np.max(np.abs(np.log(y) - point)) <= 1e-12]
        if not match:
            raise Violation("%s: evaluated %s, expected the integers %s" % (what, np.exp(point).tolist(), [y.tolist() for y in self.held]))
        y = match[0]
        self.held = match[:1]
        xd = np.log(y)
        m1, m2 = float(d.over(xd)), d.margin(xd, gamma)
        p = float(d.profit(xd))
        if new is not None:
            if m1 > 1e-11 or m2 > 1e-11:
                raise Violation("%s: new value %r at %s, but the limit or the best value is missed (profit %.9g)" % (what, new, y.tolist(), p))
            if abs(float(new) - p) > 1e-9 * d.scale(xd):
                raise Violation("%s: reported %r at %s, true profit %.12g" % (what, float(new), y.tolist(), p))
            level = float(new)
            under = [(self.tangent(xd, level), 0.0)]
            rec.outcome("integer improvement")
        else:
            if m1 < -1e-11 and m2 < -1e-11:
                raise Violation("%s: %s respects the limit and has profit %.9g, but no new value was reported" % (what, y.tolist(), p))
            level = gamma
            under = []
            if m1 > -1e-11:
                under.append((np.array([1.0, 0.0]), m1))
            if m2 > -1e-11:
                under.append((self.tangent(xd, gamma), m2))
            rec.outcome("integer cut")
        bad = self.field.excluded(x, g, b, level)
        if bad is not None:
            # the listed finding: the offset of the cut at the rounded point is moved the wrong way
            for gu, h in under:
                if np.max(np.abs(g - gu)) < 1e-9 * (1 + np.max(np.abs(gu))) and abs(b - (h + float(gu @ (xd - x)))) < 1e-9 * (1 + abs(h) + float(np.abs(gu) @ np.abs(xd - x))):
                    rec.known_finding(KEY, {"params": d.params, "el": d.el, "v": d.v, "x": x.tolist(), "gamma": gamma, "retry": retry, "cut": [g.tolist(), b], "excludes": bad[0]})
                    rec.outcome("known: wrong shift")
                    return level
            raise Violation("%s: cut %s, %r excludes %s with profit %.9g > %.9g" % (what, g.tolist(), b, bad[0], bad[1], level))
        return level

    def tangent(self, xd, gamma):
        y = np.exp(xd)
        a, b, p, v0, v1 = self.data.vert[0]
        q = np.array([v0 * y[0], v1 * y[1]])
        return q / (gamma + q.sum()) - np.array([a, b])


def make(data):
    from ellalgo.oracles.profit_oracle import ProfitQOracle

    el, v = data.arrays()
    return ProfitQOracle(data.params, el, v)


def ask(orc, x, gamma, retry, buf=None):
    """buf: the caller's array, moved in place from query to query (None: a new array each time)."""
    if buf is None:
        q = x.copy()
    else:
        buf[:] = x
        q = buf
    res = orc.assess_optim_q(q, gamma, retry)
    if not np.array_equal(q, x):
        raise Violation("the queried point was modified")
    # a copy of the evaluation point: later calls must not change it (C20), here only the answer counts
    return (res[0], np.array(res[1], dtype=float), res[2], res[3])


PROBS = range(len(profit.PROBLEMS))


def points(data, field):
    pts = profit.query_points(data, field, True)
    # around integers, ties and the smallest integers
    vals = [0.2, 0.4, 0.5, 0.6, 1.0, 1.4, 1.5, 1.6, 2.0, 2.5, 2.7, 3.0, 6.4]
    pts += [np.log(np.array(t)) for t in itertools.product([0.4997, 0.5003, 1.4997, 1.5003, 2.50002, 20.4997, 20.5003, 21.49998], [1.2, 3.5003, 5.4997, 5.2])]
    return pts + [np.log(np.array(t)) for t in itertools.product(vals, repeat=2)]


def sweep(i, part, rec):
    data = profit.problem_data(i)
    field = profit.Field(data)
    lv = profit.levels(data, field)
    pts = points(data, field)[part::2]
    for x in pts:
        own = float(data.profit(x))
        ints = [float(data.profit(np.log(c))) for c in candidates(x)]
        lvx = lv[1:] + [v for v in [own * (1 - 1e-6)] + ints + [t * (1 + 1e-6) for t in ints] + [t * (1 - 1e-6) for t in ints] if v > 0]
        for gamma in lvx:
            for warm in (0, 1):
                orc, mod = make(data), Model(data, field)
                w = "problem %d at %s, best %r, %d queries before" % (i, x.tolist(), gamma, warm)
                if warm:
                    mod.step(field.argmax, lv[-1], False, ask(orc, field.argmax, lv[-1], False), w, rec)
                after = mod.step(x, gamma, False, ask(orc, x, gamma, False), w, rec)
                # the retry at the same centre, with the level kept by the driver
                mod.step(x, after, True, ask(orc, x, after, True), w + ", retry", rec)
                # and a retry after the centre has moved
                x2 = x + np.array([0.35, -0.25])
                mod.step(x2, after, True, ask(orc, x2, after, True), w + ", second retry", rec)
                rec.step(3)
        rec.trace(2 * len(lvx))
        rec.state((i, x.tolist()))


def spread(data, field):
    o = field.argmax
    lk = float(np.log(data.k))
    near = np.log(np.maximum(1.0, np.round(np.exp(o))))
    return [o.copy(), near + np.array([0.1, -0.1]), np.array([min(field.shift[0] + 0.3, lk - 0.05), field.shift[1] + 0.3]), np.array([lk - 0.01, o[1] + 0.3]), np.array([lk + 0.4, o[1]]), np.log(np.array([min(1.7, data.k * 0.9), 1.4]))]


def histories(i, depth, first, rec):
    data = profit.problem_data(i)
    field = profit.Field(data)
    pts = spread(data, field)
    acts = [(p, lvl, r) for p in range(len(pts)) for lvl in ("cur", "half") for r in (False, True)]
    for seq, buf in itertools.product(itertools.product(range(len(acts)), repeat=depth - 1), (None, np.zeros(2))):
        seq = (first,) + seq
        orc, mod = make(data), Model(data, field)
        best = 0.0
        for a in seq:
            p, lvl, retry = acts[a]
            gamma = best if lvl == "cur" else max(best, 0.5 * profit.base(data, field))
            res = ask(orc, pts[p], gamma, retry, buf)
            rec.step()
            best = mod.step(pts[p], gamma, retry, res, "history %s (problem %d)" % ([acts[b] for b in seq], i), rec)
        rec.trace()
    rec.state((i, first, "histories"))


def bounds(tier):
    return {"problems": len(profit.PROBLEMS), "points": "about 450 per problem incl. integer and tie points and points 2e-5 and 3e-4 beside a tie", "levels": "6 + those at and around the rounded point's profit",
            "per point": "query, retry, retry at another centre; fresh and warm oracle", "histories": "all sequences of %d (point, level, retry) out of 24" % (3 if tier == "quick" else 4)}


def shards(tier):
    sh = [{"kind": "s", "i": i, "part": q} for i in PROBS for q in (0, 1)]
    sh += [{"kind": "h", "i": i, "depth": 3 if tier == "quick" else (4 if i in (0, 1, 3) else 3), "first": f} for i in PROBS for f in range(24)]
    return sh


def run_shard(s, rec):
    if s["kind"] == "s":
        rec.run({"shard": s}, sweep, s["i"], s["part"], rec)
    else:
        rec.run({"shard": s}, histories, s["i"], s["depth"], s["first"], rec)
    rec.sample(s)


def replay(case, rec):
    run_shard(case["shard"], rec)
