"""Scripted environments: every sequence of oracle answers, update statuses and widths up to a depth.

Stateless exploration: the real function is run with a prefix of choices (0 afterwards); every choice
point met after the prefix is branched.  A run that asks for more than the horizon is a violation.
"""
import numpy as np

from .core import Violation


class Runaway(Exception):
    pass


class Chooser:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.width = []

    def __call__(self, k):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= k:
            raise RuntimeError("replay diverged")
        self.taken.append(c)
        self.width.append(k)
        return c


def explore(run, first=()):
    """run(chooser) for every choice sequence extending `first`.  Yields after each execution."""
    stack = [list(first)]
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        run(ch)
        yield ch.taken
        for i in range(len(ch.taken) - 1, max(len(prefix), len(first)) - 1, -1):
            for alt in range(1, ch.width[i]):
                stack.append(ch.taken[:i] + [alt])


class Lasso(Chooser):
    """Repeats `loop` (letters: one (oracle choice, update choice) pair per iteration); letter `end` at iteration `at`."""

    def __init__(self, loop, at, end):
        super().__init__([])
        self.loop, self.at, self.end, self.half = loop, at, end, 0

    def __call__(self, k):
        it, part = divmod(self.half, 2)
        self.half += 1
        w = self.end if self.at is not None and it == self.at else self.loop[it % len(self.loop)]
        if w[part] >= k:
            raise RuntimeError("replay diverged")
        self.taken.append(w[part])
        return w[part]


def lassos(go, stop, length, limits, tails=2):
    """All loops up to `length` over the letters `go` that go on x every way to stop x when, for each iteration limit."""
    words = [[a] for a in go]
    if length >= 2:
        words += [[a, b] for a in go for b in go if a != b]
    if length >= 3:
        words += [[a, b, c] for a in go for b in go for c in go if not a == b == c]
    for mx in limits:
        for w in words:
            yield {"max": mx, "loop": w, "at": None, "end": None}
            for at in (mx - 1, mx // 2 + 1)[:tails]:
                for e in stop:
                    yield {"max": mx, "loop": w, "at": at, "end": e}


CUTS = [
    (np.array([1.0, 2.0]), 0.5),
    (np.array([-1.0, 0.25]), [0.5, 0.75]),
    (np.array([0.0, 3.0]), 0.0),
]


def same_cut(a, b):
    try:
        return (np.array_equal(np.asarray(a[0]), np.asarray(b[0])) and np.array_equal(np.asarray(a[1]), np.asarray(b[1]))
                and len(a) == len(b))
    except Exception:
        return False


_CLS = {}
STEP = np.array([1.0, 0.5])


def _classes():
    from ellalgo.ell_typing import SearchSpace

    class Scripted(SearchSpace):
        def __init__(self, answers, log, inplace, horizon):
            self._x = np.array([10.0, -3.0])
            self._t = 1e6
            self._answers, self._log, self._inplace, self._horizon = answers, log, inplace, horizon

        def _upd(self, kind, cut):
            if len(self._log) > self._horizon:
                raise Runaway()
            self._log.append(("update", kind, (np.array(cut[0], copy=True), np.array(cut[1], copy=True))))
            st, t = self._answers()
            self._t = t
            if st.name == "Success":
                if self._inplace:
                    self._x += STEP
                else:
                    self._x = self._x + STEP
            return st

        def update_bias_cut(self, cut):
            return self._upd("bias", cut)

        def update_central_cut(self, cut):
            return self._upd("central", cut)

        def xc(self):
            return self._x

        def set_xc(self, x):
            self._x = x

        def tsq(self):
            return self._t

    class ScriptedQ(Scripted):
        def update_q(self, cut):
            return self._upd("q", cut)

    _CLS[False], _CLS[True] = Scripted, ScriptedQ


def make_space(answers, log, inplace, own_q=True, horizon=200):
    """A search space whose update outcomes come from `answers()` -> (status, tsq)."""
    if not _CLS:
        _classes()
    return _CLS[own_q](answers, log, inplace, horizon)


def xval(i):
    """Centre after i successful updates."""
    return np.array([10.0 + i, -3.0 + 0.5 * i])


def fmt(log):
    out = []
    for e in log:
        if e[0] == "update":
            out.append("update_%s" % e[1])
        else:
            out.append("%s%s" % (e[0], tuple(np.asarray(v).tolist() if hasattr(v, "tolist") else v for v in e[1:])))
    return "; ".join(out)


def opts(max_iters, tol, verbose=False):
    from ellalgo.ell_config import Options

    o = Options()
    o.max_iters = max_iters
    o.tolerance = tol
    o.verbose = verbose
    return o


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)
