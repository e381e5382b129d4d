"""C05: the effect of a cut depends only on the region it describes (metamorphic relations)."""
import math
import pickle

import numpy as np

from .. import ellspace as es
from ..core import Violation

ID = "C05"
ASSUMPTIONS = ["two representations must agree up to 1e-9 relative",
               "every representation is also applied after the same prefix history, in both space implementations"]
TOL = 1e-9
SCALES = (2.0, 0.25, 3.0e4, 7.0e-5, 2.0 ** -40, 5.0e11)


def clone(s):
    return pickle.loads(pickle.dumps(s, protocol=5))


def do(space, kind, g, beta):
    sp = clone(space)
    try:
        st = getattr(sp, es.UPD[kind])((g, beta)).name
    except (AssertionError, ValueError):
        st = "error"
    return st, sp


def differs(res, ref, n, tau, gscale=1.0, tol=TOL):
    """Message if (status, space) differs from the reference one."""
    st, sp = res
    st0, sp0 = ref[0], ref[1]
    if st != st0:
        return "status %s instead of %s" % (st, st0)
    o, o0 = es.observe(sp, n), ref[2]
    sc = max(float(np.max(np.abs(o0.P))), ref[3])
    if not np.max(np.abs(o.P - o0.P)) <= tol * sc:
        return "ellipsoid %s instead of %s" % (o.P.tolist(), o0.P.tolist())
    if not np.max(np.abs(o.xc - o0.xc)) <= tol * (math.sqrt(sc) + np.max(np.abs(o0.xc))):
        return "centre %s instead of %s" % (o.xc.tolist(), o0.xc.tolist())
    if st != "error" and not abs(sp.tsq() - gscale ** 2 * sp0.tsq()) <= 10 * tol * gscale ** 2 * max(sp0.tsq(), 1e-300):
        return "tsq %.15g instead of %.15g" % (sp.tsq(), gscale ** 2 * sp0.tsq())
    return None


def integral(v):
    return all(float(x) == int(x) for x in np.ravel(v))


def variants(op, tau, boundary):
    """(name, kind, gradient, beta, gradient scale) which all describe the same region."""
    g = np.array(op["g"], dtype=float)
    k = op["k"]
    beta = es.betas(op, tau)
    pair = isinstance(beta, list)
    out = []
    for c in SCALES:
        b = [c * x for x in beta] if pair else c * beta
        if not boundary:
            out.append(("scaled by %g" % c, k, c * g, b, c))
    if integral(g):
        out.append(("int64 gradient", k, g.astype(np.int64), beta, 1))
        out.append(("int32 gradient", k, g.astype(np.int32), beta, 1))
    gf = g[::-1].copy()[::-1]
    out.append(("non-contiguous gradient", k, gf, beta, 1))
    if pair:
        out.append(("tuple of offsets", k, g, tuple(beta), 1))
        out.append(("array of offsets", k, g, np.array(beta), 1))
        out.append(("numpy offsets", k, g, [np.float64(x) for x in beta], 1))
        if integral(beta):
            out.append(("integer offsets", k, g, [int(x) for x in beta], 1))
        if op["a"][1] > 1.0 + 1e-9:
            out.append(("single cut", k, g, beta[0], 1))
        elif op["a"][1] == 1.0 and not boundary:
            out.append(("single cut", k, g, beta[0], 1))
        if op["a"][0] == 0.0 and k == "bias" and op["a"][1] >= 0:
            out.append(("central update", "central", g, beta, 1))
        if k == "central":
            for x in (0.3, -0.2, 5.0):
                out.append(("central with first offset %g" % x, k, g, [x * tau, beta[1]], 1))
        if op["a"][0] >= 0 and k == "bias" and not boundary and op["a"][1] >= op["a"][0]:
            out.append(("quantized update", "q", g, beta, 1))
    else:
        out.append(("one-element list", k, g, [beta], 1))
        out.append(("one-element tuple", k, g, (beta,), 1))
        out.append(("one-element array", k, g, np.array([beta]), 1))
        out.append(("numpy offset", k, g, np.float64(beta), 1))
        if integral(beta):
            out.append(("integer offset", k, g, int(beta), 1))
            out.append(("one integer in a list", k, g, [int(beta)], 1))
        for x in (1.0 + 1e-6, 1.5, 7.0, 1e6):
            if op["a"] <= x:
                out.append(("pair with a plane outside at %g" % x, k, g, [beta, x * tau], 1))
        if op["a"] == 0.0 and k == "bias":
            out.append(("central update", "central", g, beta, 1))
        if k == "central":
            for x in (0.3, -0.2, 5.0):
                out.append(("central with offset %g" % x, k, g, x * tau, 1))
        if op["a"] >= 0 and k == "bias" and not boundary:
            out.append(("quantized update", "q", g, beta, 1))
    return out


class Meta(es.Walker):
    def step(self, space, pre, op, path):
        rec, n = self.rec, self.n
        tau = math.sqrt(max(es.probe(space, op["g"]), 0.0))
        flat = es.is_flat(pre.P, op["g"])
        if flat:
            return None
        beta = es.betas(op, tau)
        st, sp = do(space, op["k"], np.array(op["g"], dtype=float), beta)
        sc = max(float(np.max(np.abs(pre.P))), 1e-300)
        ref = (st, sp, es.observe(sp, n), sc)
        exp = es.expected_status(op, n, self.par)
        boundary = len(exp) > 1
        rec.outcome("%s/%s" % (op["k"], st))
        for name, k, g, b, c in variants(op, tau, boundary):
            if not self.par and ("pair" in name and "plane" in name):
                pass
            m = differs(do(space, k, g, b), ref, n, tau, c)
            rec.step()
            rec.check()
            if m:
                raise Violation("%s cut %s written as '%s' gives %s" % (op["k"], op["a"], name, m))
        # disabling parallel cuts reduces a pair to its first plane
        if isinstance(beta, list):
            s1 = clone(space)
            s1.helper.use_parallel_cut = False
            s2 = clone(s1)
            r1 = do(s1, op["k"], np.array(op["g"], dtype=float), beta)
            r2 = do(s2, op["k"], np.array(op["g"], dtype=float), beta[0])
            m = differs(r1, (r2[0], r2[1], es.observe(r2[1], n), sc), n, tau)
            rec.check()
            if m:
                raise Violation("with parallel cuts disabled, pair %s gives %s" % (op["a"], m))
            if not self.par:
                m = differs(r1, ref, n, tau)
                if m:
                    raise Violation("with parallel cuts disabled: %s" % m)
        return (sp, ref[2]) if st == "Success" else None


# ---- start forms and signed permutations ---------------------------------------------------------
def sperm(n, which):
    if which == 0:
        p, s = list(range(n))[::-1], [1.0] * n
    elif which == 1:
        p, s = [(i + 1) % n for i in range(n)], [(-1.0) ** i for i in range(n)]
    else:
        p, s = list(range(n)), [-1.0] * n
    S = np.zeros((n, n))
    for i in range(n):
        S[i, p[i]] = s[i]
    return S


def symmetry(cfg, word, which, rec):
    """Apply a word to a space and, transformed, to the transformed space."""
    n = cfg["n"]
    S = sperm(n, which)
    a = es.make(cfg)
    P0 = S @ es.init_P(cfg) @ S.T
    x0 = S @ np.array(cfg.get("xc") or [0.0] * n)
    kind, val = cfg["init"]
    b = es.make(dict(cfg, init=["diag", np.diag(P0).tolist()] if kind == "diag" else [kind, val], xc=x0.tolist()))
    for op in word:
        tau = math.sqrt(max(es.probe(a, op["g"]), 0.0))
        beta = es.betas(op, tau)
        ra = do(a, op["k"], np.array(op["g"], dtype=float), beta)
        rb = do(b, op["k"], S @ np.array(op["g"], dtype=float), beta)
        rec.step(2)
        rec.check()
        if ra[0] != rb[0]:
            if len(es.expected_status(op, n)) > 1:
                return
            raise Violation("renaming/flipping coordinates changes status %s to %s" % (ra[0], rb[0]))
        oa, ob = es.observe(ra[1], n), es.observe(rb[1], n)
        sc = max(np.max(np.abs(oa.P)), 1e-300)
        if (np.max(np.abs(S @ oa.P @ S.T - ob.P)) > 1e-8 * sc or
                np.max(np.abs(S @ oa.xc - ob.xc)) > 1e-8 * (math.sqrt(sc) + np.max(np.abs(oa.xc)))):
            raise Violation("renaming/flipping coordinates does not commute with the %s update" % op["k"])
        if ra[0] != "Success":
            return
        a, b = ra[1], rb[1]


def moved(cfg, word, at, rec):
    """set_xc before step `at` of a word: from there on the same as the unmoved space, translated; and at 0 the same as starting there."""
    n = cfg["n"]
    d = np.array([3.0, -2.5, 0.75, 11.0][:n] + [1.5] * max(0, n - 4))
    a, b = es.make(cfg), es.make(cfg)
    tr = np.zeros(n)
    others = []
    if at == 0:
        x0 = np.array(cfg.get("xc") or [0.0] * n)
        others.append(es.make(dict(cfg, xc=(x0 + d).tolist())))
        # start at an integer point given as integers, then move
        from ellalgo.ell import Ell
        from ellalgo.ell_stable import EllStable

        kind, val = cfg["init"]
        c = {"Ell": Ell, "EllStable": EllStable}[cfg["cls"]](np.array(val) if kind == "diag" else val, np.arange(n))
        c.set_xc(x0 + d)
        others.append(c)
    for i, op in enumerate(word):
        if i == at:
            b.set_xc(np.array(b.xc(), dtype=float) + d)
            tr = d
            if np.max(np.abs(b.xc() - (a.xc() + d))) > 1e-9:
                raise Violation("after set_xc the centre is %s" % b.xc().tolist())
        tau = math.sqrt(max(es.probe(a, op["g"]), 0.0))
        beta = es.betas(op, tau)
        ra = do(a, op["k"], np.array(op["g"], dtype=float), beta)
        for j, (who, sp) in enumerate([("moved by set_xc", b)] + list(zip(("started elsewhere", "started at integers and moved"), others))):
            rb = do(sp, op["k"], np.array(op["g"], dtype=float), beta)
            rec.step(2)
            rec.check()
            if ra[0] != rb[0]:
                raise Violation("space %s: %s update %s reports %s instead of %s" % (who, op["k"], op["a"], rb[0], ra[0]))
            oa, ob = es.observe(ra[1], n), es.observe(rb[1], n)
            sc = max(np.max(np.abs(oa.P)), 1e-300)
            if (np.max(np.abs(oa.P - ob.P)) > 1e-8 * sc or np.max(np.abs(oa.xc + tr - ob.xc)) > 1e-8 * (math.sqrt(sc) + 20)) if (i >= at or sp is b) else False:
                raise Violation("space %s: %s update %s gives centre %s, ellipsoid %s; unmoved: %s, %s" % (who, op["k"], op["a"], ob.xc.tolist(), ob.P.tolist(), oa.xc.tolist(), oa.P.tolist()))
            if sp is b:
                b = rb[1]
            else:
                others[j - 1] = rb[1]
        if ra[0] == "error":
            return
        a = ra[1]


def start_forms(cls, n, nodefer, word, rec):
    from ellalgo.ell import Ell
    from ellalgo.ell_stable import EllStable

    C = {"Ell": Ell, "EllStable": EllStable}[cls]
    vals = [4.0, 4, np.float64(4.0), [4.0] * n, [4] * n, tuple([4] * n), np.full(n, 4.0), np.full(n, 4)]
    xs = [[float(i - 1) for i in range(n)], [i - 1 for i in range(n)], tuple(float(i - 1) for i in range(n)),
          np.arange(n, dtype=float) - 1, np.arange(n) - 1]
    results = []
    for v in vals:
        for x in xs:
            sp = C(v, x)
            if nodefer:
                sp.no_defer_trick = True
            sts = []
            tsqs = []
            for op in word:
                # offsets in absolute terms: identical for every form
                b = [0.5 * t for t in op["a"]] if isinstance(op["a"], list) else 0.5 * op["a"]
                try:
                    sts.append(getattr(sp, es.UPD[op["k"]])((np.array(op["g"], dtype=float), b)).name)
                except AssertionError:
                    sts.append("error")
                tsqs.append(float(sp.tsq()))
                rec.step()
            o = es.observe(sp, n)
            rec.check()
            results.append((v, x, sts, tsqs, o))
    v0, x0, sts0, tsqs0, o0 = results[0]
    sc = np.max(np.abs(o0.P))
    for v, x, sts, tsqs, o in results[1:]:
        if (sts != sts0 or np.max(np.abs(o.P - o0.P)) > 1e-9 * sc or np.max(np.abs(o.xc - o0.xc)) > 1e-9
                or any(abs(s - t) > 1e-9 * max(abs(t), 1e-300) for s, t in zip(tsqs, tsqs0))):
            raise Violation("start given as (%r, %r) behaves differently from (%r, %r): %s %s vs %s %s"
                            % (v, x, v0, x0, sts, o.xc.tolist(), sts0, o0.xc.tolist()))


def bounds(tier):
    return {"dimensions": "2..5, 8", "states": "start plus every state after one (thorough: two) cuts",
            "cuts": "full alphabet at the start, mid alphabet later",
            "representations": "scales %s, integer/numpy/list/tuple/array forms, outside planes, central/bias/quantized, parallel cuts off, 3 signed permutations, centre moved by set_xc at every point of a word, 40 start forms" % (SCALES,)}


def shards(tier):
    big = tier == "thorough"
    sh = []
    for n in ((2, 3, 4) if not big else (2, 3, 4, 5, 6, 8)):
        for cfg in es.base_cfgs(n, tier):
            for g in range(len(es.gradients(n, "full" if big else "small"))):
                sh.append({"kind": "A", "cfg": cfg, "g": g})
            for op in es.ops(n, "tiny", "small" if big else "tiny"):
                sh.append({"kind": "B", "cfg": cfg, "first": op, "depth": 1})
            if n <= 3 and big:
                for op in es.ops(n, "tiny", "tiny"):
                    sh.append({"kind": "B", "cfg": cfg, "first": op, "depth": 2})
    for n in ((5, 8) if not big else (5, 8, 12, 17)):
        for cfg in es.base_cfgs(n, tier):
            sh.append({"kind": "D", "cfg": cfg})
    for n in ((3,) if not big else (2, 3, 5)):
        for cfg in es.base_cfgs(n, tier):
            sh.append({"kind": "B0", "cfg": dict(cfg, par=False)})
            for kappa in (1e-6, 1e5):
                sh.append({"kind": "B0", "cfg": dict(cfg, init=["scalar", kappa])})
    for n in ((2, 3, 4, 6) if not big else (2, 3, 4, 5, 6, 9)):
        for cfg in es.base_cfgs(n, tier):
            for which in range(3):
                sh.append({"kind": "S", "cfg": cfg, "which": which})
            if n <= 3 and cfg["init"][0] == "diag":
                sh += [{"kind": "S", "cfg": dict(cfg, init=["diag", [f * v for v in cfg["init"][1]]]), "which": 1} for f in (1e-11, 1e10)]
            if n <= 3:
                sh.append({"kind": "R", "cfg": cfg})
    for n in ((2, 3, 4) if not big else (2, 3, 4, 6)):
        for cfg in es.base_cfgs(n, tier):
            sh.append({"kind": "T", "cfg": cfg})
    for n in (2, 3, 5):
        for cls in ("Ell", "EllStable"):
            for nd in (False, True):
                sh.append({"kind": "X", "cls": cls, "n": n, "nodefer": nd})
    return sh


def x_words(n):
    gs = es.gradients(n, "tiny")
    w = []
    for k, a in es.alphabet(n, "small") + [("bias", 1.0), ("bias", [0.0, 0.0]), ("q", [-1.0, 1.0])]:
        for g in gs:
            w.append([{"k": k, "g": g, "a": a}, {"k": "bias", "g": gs[0], "a": 0.5}, {"k": "q", "g": gs[1], "a": [0.0, 0.6]}])
    return w


def s_words(n):
    al = es.ops(n, "tiny", "small")
    return [[a, b, c] for i, a in enumerate(al) for b in al[i % 3::3] for c in al[(i + 1) % 7::7]]


def run_shard(shard, rec):
    k = shard["kind"]
    if k == "X":
        for w in x_words(shard["n"]):
            case = {"x": [shard["cls"], shard["n"], shard["nodefer"]], "word": w}
            rec.run(case, start_forms, shard["cls"], shard["n"], shard["nodefer"], w, rec)
            rec.trace()
        return
    cfg = shard["cfg"]
    n = cfg["n"]
    if k == "S":
        for w in s_words(n):
            rec.run({"s": shard["which"], "cfg": cfg, "word": w}, symmetry, cfg, w, shard["which"], rec)
            rec.trace()
        return
    if k == "R":
        for w in es.reuse_words(n)[1::2]:
            rec.run({"cfg": cfg, "reuse": w}, es.reuse, cfg, w, rec)
            rec.trace()
        return
    if k == "T":
        for i, w in enumerate(s_words(n)):
            for at in range(3) if rec.tier == "thorough" else (i % 3,):
                rec.run({"t": at, "cfg": cfg, "word": w}, moved, cfg, w, at, rec)
                rec.trace()
        return
    w = Meta(cfg, rec, None)
    if k == "A":
        gs = es.gradients(n, "full" if rec.tier == "thorough" else "small")
        w.explore([[{"k": kk, "g": gs[shard["g"]], "a": a} for kk, a in es.alphabet(n, "full")]])
    elif k == "B":
        lv = [es.ops(n, "tiny", "mid")]
        if shard["depth"] == 2:
            lv = [es.ops(n, "tiny", "tiny")] + lv
        w.explore(lv, prefix=[shard["first"]])
    elif k == "B0":
        w.explore([es.ops(n, "small", "mid")])
    elif k == "D":
        w.explore([es.ops(n, "tiny", "mid")])


def replay(case, rec):
    if "x" in case:
        start_forms(*case["x"], case["word"], rec)
    elif "reuse" in case:
        es.reuse(case["cfg"], case["reuse"], rec)
    elif "t" in case:
        moved(case["cfg"], case["word"], case["t"], rec)
    elif "s" in case:
        symmetry(case["cfg"], case["word"], case["s"], rec)
    else:
        es.replay_path(case, rec, None, Meta)
