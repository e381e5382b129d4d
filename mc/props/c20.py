"""C20: non-interference - all operation interleavings of pairs of actors and all line-level schedules up to a preemption bound."""
import copy
import itertools
import os
import pickle

import numpy as np

from .. import actors, sched
from ..core import Violation

ID = "C20"
ASSUMPTIONS = ["34 actors (programs of 2 to 4 operations) stand for the uses of the library; caller data is shared between them, library objects are not",
               "thread switches happen at source lines (thorough: also bytecodes) of the library; numpy calls are atomic",
               "results are compared bit by bit with those of the actor alone"]
NAMES = list(actors.ACTORS)
SOLO = {}
END = object()


def solo(name):
    """Reference: the actor alone (computed once per process and again on demand)."""
    if name not in SOLO:
        env = actors.Env()
        SOLO[name] = list(actors.steps(name, env))
        env.verify("while %s was used alone" % name)
    return SOLO[name]


def compare(name, got, schedule):
    want = solo(name)
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation("%s behaves differently from its %d. step on when run as %s" % (name, k + 1, schedule))


def solo_fresh():
    """References of all actors, each from a process of its own that has used nothing else."""
    for n in NAMES:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    out = solo(n)
                except Violation:
                    out = None
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        got = pickle.loads(data) if data else None
        if got is not None:
            SOLO[n] = got


# ---------------------------------------------------------------------------------- histories with shared caller data
UPD = [("update_bias_cut", (1.0, -0.5), 0.3), ("update_central_cut", (0.25, 1.0), [0.0, 0.6]), ("update_q", (-1.0, 2.0), [-0.3, 0.8]), ("update_bias_cut", (1.0, 1.0), [0.2, 0.2])]
OPS = [(k, u) for k in (0, 1) for u in range(len(UPD))] + [(0, "take"), (1, "take"), (0, "set"), (1, "set"), (0, "clone")]


def history(kinds, form, seq, shared, rec):
    """Two spaces started from the same data; 'take' adopts the other one's centre, 'clone' works on a deep copy.

    shared: hand over the caller's arrays themselves (watched); otherwise private copies (the reference)."""
    from ellalgo.ell import Ell
    from ellalgo.ell_stable import EllStable

    env = actors.Env()
    give = (lambda v: v) if shared else (lambda v: copy.deepcopy(v))
    dt = int if form == "int" else float
    x0 = env.arr("x0", 1, -2, dtype=dt)
    val = env.arr("val", 9, 16, dtype=dt) if form != "scalar" else 16.0
    sp = [(Ell if k == "ell" else EllStable)(give(val), give(x0)) for k in kinds]
    pt = env.arr("pt", 2, 1, dtype=dt)
    obs = []
    for o in seq:
        k, u = OPS[o]
        s = sp[k]
        st = None
        try:
            if u == "take":
                s.set_xc(give(env.keep("centre returned earlier", sp[1 - k].xc())))
            elif u == "set":
                s.set_xc(give(pt))
            else:
                if u == "clone":
                    s, u = copy.deepcopy(s), 2
                meth, g, b = UPD[u]
                gv = env.arr("g%d" % u, *g) if form != "int" else env.arr("g%d" % u, *[int(4 * t) for t in g], dtype=int)
                bv = env.obj("b%d" % u, lambda: list(b)) if isinstance(b, list) else b
                st = getattr(s, meth)((give(gv), give(bv)))
        except Exception as e:
            st = ("error", type(e).__name__)
        x = env.keep("centre returned earlier", s.xc())
        obs.append(actors.freeze((st, np.array(x, dtype=float), s.tsq())))
        obs.append(actors.freeze([np.array(t.xc(), dtype=float) for t in sp]))
        rec.step()
        env.verify("by operation %d of %s" % (len(obs) // 2, [OPS[t] for t in seq]))
    return obs


def both(kinds, form, seq, rec):
    a = history(kinds, form, seq, True, rec)
    b = history(kinds, form, seq, False, rec)
    rec.check()
    if a != b:
        k = next(i for i, (p, q) in enumerate(zip(a, b)) if p != q) // 2
        raise Violation("%s spaces (%s data): operation %d of %s acts differently on shared and on private caller data" % (kinds, form, k + 1, [OPS[t] for t in seq]))


# ---------------------------------------------------------------------------------- operation level
def interleave(names, order, rec):
    """One interleaving: order is a string of actor indices, one per operation."""
    env = actors.Env()
    gens = [actors.steps(n, env) for n in names]
    out = [[] for _ in names]
    for c in order:
        k = int(c)
        o = next(gens[k], END)
        if o is not END:
            out[k].append(o)
            rec.step()
        env.verify("by an operation of %s in the schedule %s of %s" % (names[k], order, list(names)))
    for k, n in enumerate(names):
        out[k] += list(gens[k])
        compare(n, out[k], "schedule %s with %s" % (order, list(names)))
    env.verify("in the schedule %s of %s" % (order, list(names)))
    rec.check(len(names))


def orders(counts):
    """All interleavings of sequences of the given lengths."""
    if not any(counts):
        yield ""
        return
    for k, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[k] -= 1
            for o in orders(rest):
                yield str(k) + o


# ---------------------------------------------------------------------------------- line level
def threads(names, plan, opcodes, rec):
    env = actors.Env()
    fns = [lambda n=n: list(actors.steps(n, env)) for n in names]
    res, counts = sched.Scheduler(fns, plan, opcodes).run()
    rec.step(sum(counts))
    for n, r in zip(names, res):
        compare(n, r, "threads %s switched at %s" % (list(names), plan))
    env.verify("by threads %s switched at %s" % (list(names), plan))
    rec.check(len(names))
    return counts


def lengths(names, opcodes):
    """Number of schedule points of each actor alone."""
    out = []
    for n in names:
        env = actors.Env()
        _, c = sched.Scheduler([lambda: list(actors.steps(n, env))], [], opcodes).run()
        out.append(c[0])
    return out


def bound1(a, b, opcodes, part, of, rec):
    names = (a, b)
    for n in names:
        solo(n)
    la, lb = lengths(names, opcodes)
    plans = [[(0, i), (1, 10 ** 9)] for i in range(1, la)] + ([[(1, i), (0, 10 ** 9)] for i in range(1, lb)] if a != b else [])
    for p in plans[part::of]:
        case = {"threads": list(names), "plan": p, "opcodes": opcodes}
        rec.state((names, p, opcodes))
        rec.run(case, threads, names, p, opcodes, rec)
        rec.trace()


def bound2(a, b, part, of, stride, rec):
    """Two preemptions: A runs i points, B runs j, A to its end, B to its end."""
    names = (a, b)
    la, lb = lengths(names, False)
    k = 0
    for i in range(1, la):
        for j in range(1, lb, stride):
            k += 1
            if k % of != part:
                continue
            p = [(0, i), (1, j), (0, 10 ** 9)]
            rec.state((names, p))
            rec.run({"threads": list(names), "plan": p, "opcodes": False}, threads, names, p, False, rec)
            rec.trace()


SMALL = ["calc2", "calc3", "core2", "core5", "ldlt_b", "lmi", "profit", "profit_rb", "profit_q", "ell2", "st2"]


def bounds(tier):
    return {"actors": NAMES, "operation level": "all interleavings of every pair of actors (with repetition)%s" % ("" if tier == "quick" else "; all of every triple within a family"),
            "line level": "every single preemption (both ways) of every pair within a family%s" % ("" if tier == "quick" else ", also at every bytecode for equal actors; every pair of preemptions for the small actors"),
            "histories": "two spaces from the same caller arrays, all sequences of %d of %d operations incl. adopting each other's centre and deep copies, compared with private copies" % (3 if tier == "quick" else 4, len(OPS)),
            "two preemptions": "line level, small actors against themselves%s" % (", second switch at every 4th line" if tier == "quick" else "")}


def family_pairs():
    seen = []
    for f in actors.FAMILY:
        for a, b in itertools.combinations_with_replacement(f, 2):
            if (a, b) not in seen:
                seen.append((a, b))
    for n in NAMES:
        if (n, n) not in seen:
            seen.append((n, n))
    return seen


def shards(tier):
    big = tier == "thorough"
    solo_fresh()
    sh = [{"kind": "hist", "kinds": list(k), "form": f, "first": i, "len": 4 if big else 3}
          for k in itertools.product(("ell", "st"), repeat=2) for f in ("float", "int", "scalar") for i in range(len(OPS))]
    for a, b in family_pairs():
        long = any(x in ("feas", "optim", "optim_q", "bs", "feas_st", "optim_st", "bs_st") for x in (a, b))
        of = 4 if long else 1
        sh += [{"kind": "b1", "a": a, "b": b, "op": False, "part": p, "of": of} for p in range(of)]
    if big:
        for n in NAMES:
            sh += [{"kind": "b1", "a": n, "b": n, "op": True, "part": p, "of": 4} for p in range(4)]
        for a, b in itertools.combinations_with_replacement(SMALL, 2):
            sh += [{"kind": "b2", "a": a, "b": b, "part": p, "of": 4, "stride": 1} for p in range(4)]
        for f in actors.FAMILY:
            for t in itertools.combinations_with_replacement(f, 3):
                sh.append({"kind": "op", "names": list(t)})
    else:
        for n in SMALL:
            of = 8 if n == "st2" else 4
            sh += [{"kind": "b2", "a": n, "b": n, "part": p, "of": of, "stride": 4} for p in range(of)]
    for a, b in itertools.combinations_with_replacement(NAMES, 2):
        sh.append({"kind": "op", "names": [a, b]})
    return sh


def run_shard(s, rec):
    if s["kind"] == "op":
        names = s["names"]
        counts = [len(solo(n)) for n in names]
        if len(names) == 3:
            counts = [min(c, 3) for c in counts]
        for o in orders(counts):
            rec.state((names, o))
            rec.run({"names": names, "order": o}, interleave, names, o, rec)
            rec.trace()
        rec.outcome("operation interleavings of %d" % len(names))
    elif s["kind"] == "hist":
        for rest in itertools.product(range(len(OPS)), repeat=s["len"] - 1):
            seq = [s["first"]] + list(rest)
            rec.state((s["kinds"], s["form"], seq))
            rec.run({"kinds": s["kinds"], "form": s["form"], "seq": seq}, both, s["kinds"], s["form"], seq, rec)
            rec.trace(2)
        rec.outcome("histories on shared data")
        return
    elif s["kind"] == "b1":
        bound1(s["a"], s["b"], s["op"], s["part"], s["of"], rec)
        rec.outcome("one preemption")
    else:
        bound2(s["a"], s["b"], s["part"], s["of"], s["stride"], rec)
        rec.outcome("two preemptions")
    # nothing may have leaked into fresh objects
    for n in NAMES:
        if n in SOLO:
            env = actors.Env()
            got = list(actors.steps(n, env))
            if got != SOLO[n]:
                raise Violation("%s alone behaves differently after the schedules of %s" % (n, s))
    rec.sample(s)


def replay(case, rec):
    if "seq" in case:
        both(case["kinds"], case["form"], case["seq"], rec)
    elif "order" in case:
        interleave(case["names"], case["order"], rec)
    else:
        threads(case["threads"], [tuple(p) for p in case["plan"]], case["opcodes"], rec)
