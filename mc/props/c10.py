"""C10: binary search on all answer sequences, and on all small integer brackets and thresholds."""
import math

from .. import script as sc
from ..core import Violation
from ..script import need

ID = "C10"
ASSUMPTIONS = ["integer brackets below 2**40", "the middle of an integer bracket may be rounded either way"]


def call(intrvl, max_iters, tol, answer, cap):
    from ellalgo.cutting_plane import bsearch

    log = []

    class Oracle:
        def assess_bs(self, gamma):
            if len(log) > cap:
                raise Violation("more than %d queries with max_iters=%s" % (cap, max_iters))
            a = answer(gamma, len(log))
            log.append((gamma, a))
            return a

    if max_iters is None:
        o = None
        ret = bsearch(Oracle(), intrvl)
    else:
        o = sc.opts(max_iters, tol)
        ret = bsearch(Oracle(), intrvl, o)
        need((o.max_iters, o.tolerance) == (max_iters, tol), "options were modified")
    need(isinstance(ret, tuple) and len(ret) == 2, "returned %r" % (ret,))
    return ret, log


def judge(intrvl, max_iters, tol, ret, log):
    lo, up = intrvl
    isint = isinstance(up, int)
    mi = 2000 if max_iters is None else max_iters
    t = 1e-20 if max_iters is None else tol
    val, num = ret
    need(len(log) <= mi, "%d queries with max_iters=%d" % (len(log), mi))
    need(num == len(log), "reports %r queries but made %d: %s" % (num, len(log), log[:20]))
    for g, a in log:
        need(lo <= g <= up, "query %r outside the bracket [%r, %r]: %s" % (g, lo, up, log[:20]))
        mid = lo + (up - lo) / 2
        if isint:
            need(isinstance(g, int), "integer search queried %r" % (g,))
            need(abs(g - mid) <= 0.5 + 1e-9, "query %r is not the middle of [%r, %r]" % (g, lo, up))
        else:
            need(abs(g - mid) <= 1e-12 * (abs(lo) + abs(up)) + 1e-300, "query %r is not the middle of [%r, %r]" % (g, lo, up))
        if a:
            up = g
        else:
            lo = g
    need(val == up and type(val) is type(intrvl[1]), "returned %r, smallest accepted value is %r (%s)" % (val, up, log[:20]))
    if len(log) < mi:
        need((up - lo) / 2 <= t * (1 + 1e-9), "stopped after %d queries with bracket [%r, %r], tolerance %g" % (len(log), lo, up, t))
    return lo, up


def all_answers(cfg, ch, rec):
    intr = tuple(cfg["intr"])
    ret, log = call(intr, cfg["max"], cfg["tol"], lambda g, i: bool(ch(2)), cfg["max"] + 3)
    judge(intr, cfg["max"], cfg["tol"], ret, log)
    rec.step(len(log))
    rec.check()
    rec.state((cfg["intr"], cfg["max"], cfg["tol"], ch.taken))
    rec.outcome("queries=%d" % len(log))


def threshold(lo, up, thr, max_iters, tol, rec):
    """Monotone oracle: accepts exactly the values >= thr."""
    ret, log = call((lo, up), max_iters, tol, lambda g, i: g >= thr, 2003)
    judge((lo, up), max_iters, tol, ret, log)
    rec.step(len(log))
    rec.check()
    mi = 2000 if max_iters is None else max_iters
    t = 1e-20 if max_iters is None else tol
    val = ret[0]
    if lo < thr <= up:
        need(val >= thr, "returned %r below the threshold %r" % (val, thr))
        if isinstance(up, int):
            steps = math.ceil(math.log2(max(up - lo, 1))) + 2
            if mi >= steps and t <= 1:
                need(val == thr, "returned %r, least accepted integer is %r" % (val, thr))
        else:
            width = (up - lo) / 2.0 ** min(mi, 1000)
            need(val - thr <= max(2 * t, width) * (1 + 1e-9) + 4 * 2.0 ** -52 * max(abs(lo), abs(up)),
                 "returned %r for threshold %r (tolerance %g, %d iterations)" % (val, thr, t, mi))
    rec.outcome("threshold %s" % ("int" if isinstance(up, int) else "float"))
    rec.state((lo, up, thr, max_iters, tol))


def bounds(tier):
    return {"answer trees": "all boolean sequences up to max_iters %d on %d brackets" % (9 if tier == "quick" else 12, len(BR)),
            "integer brackets": "all -9 <= lower <= upper <= 9 and larger ones, all thresholds", "tolerances": TOLS,
            "float thresholds": "64 per bracket"}


BR = [[0.0, 1.0], [-3.0, 5.0], [1e6, 1e6 + 1], [0, 1.0], [-1e-3, 1e-3], [0, 16], [-7, 9], [-16, -1], [5, 6], [0, 1], [3, 3], [2.0, 2.0], [0.0, 8], [100, 1000]]
TOLS = [1e-20, 1e-6, 0.1, 0.25, 0.5, 1.0, 0.0]


def shards(tier):
    top = 9 if tier == "quick" else 12
    sh = [{"k": "tree", "cfg": {"intr": b, "max": m, "tol": t}} for b in BR for m in list(range(0, top + 1)) for t in TOLS]
    R = 9 if tier == "quick" else 20
    sh += [{"k": "int", "lo": lo, "R": R} for lo in range(-R, R + 1)]
    sh += [{"k": "bigint", "i": i} for i in range(4)]
    sh += [{"k": "float", "i": i} for i in range(len(FB))]
    return sh


FB = [(0.0, 1.0), (-3.0, 5.0), (1e3, 1e3 + 1), (-1e-3, 1e-3), (0, 1.0), (-1e8, 1e8), (0.1, 0.7)]


def run_shard(shard, rec):
    if shard["k"] == "tree":
        def run(ch):
            rec.run({"cfg": shard["cfg"], "prefix": list(ch.prefix)}, all_answers, shard["cfg"], ch, rec)
        for taken in sc.explore(run):
            rec.trace()
            rec.sample({"cfg": shard["cfg"], "answers": taken})
        return
    cases = []
    if shard["k"] == "int":
        for up in range(shard["lo"], shard["R"] + 1):
            for thr in range(shard["lo"] - 1, up + 2):
                for mi in (0, 1, 2, 3, 5, 8, 20, None):
                    for tol in ((1e-20,) if mi is None else (1e-20, 0.5, 1.0)):
                        cases.append((shard["lo"], up, thr, mi, tol))
    elif shard["k"] == "bigint":
        lo, up = [(0, 1000), (-1000, 37), (10 ** 6, 10 ** 6 + 777), (0, 2 ** 40)][shard["i"]]
        for thr in sorted({lo + 1, lo + 2, lo + 3, up, up - 1, (lo + up) // 2, (lo + up) // 2 + 1} | {lo + 1 + k * (up - lo - 1) // 97 for k in range(97)}):
            for mi in (5, 60, None):
                cases.append((lo, up, thr, mi, 1e-20))
    else:
        lo, up = FB[shard["i"]]
        for k in range(65):
            thr = lo + (up - lo) * k / 64.0 + (0 if k % 2 else (up - lo) * 1e-3)
            for mi in (0, 1, 2, 5, 10, 30, 60, None):
                for tol in ((1e-20,) if mi is None else (1e-8, 1e-3, 0.1, 0.3)):
                    cases.append((lo, up, thr, mi, tol))
    for c in cases:
        rec.run({"thr": list(c)}, threshold, *c, rec)
        rec.trace()


def replay(case, rec):
    if "thr" in case:
        threshold(*case["thr"], rec)
    else:
        all_answers(case["cfg"], sc.Chooser(case["prefix"]), rec)
