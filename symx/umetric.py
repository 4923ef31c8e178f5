"""An uninterpreted contravariant metric: g^{ab}(x) and its first derivatives
are fresh symbols, equal for equal arguments.  On concrete inputs it is a
fixed smooth generic function."""
import math

import mpmath
import numpy as np

from . import real as R
from .real import SymReal, lift, eng, var


def _f(a, b, x, M):
    if a == b:
        s = [-3, 2, 3, 4][a] + (M.mpf(1) / 4 if M is mpmath else 0.25) * M.cos(x[0] + 2 * x[1] - x[2] + (a + 1) * x[3])
    else:
        s = (M.mpf(1) / 5 if M is mpmath else 0.2) * M.sin((a + 1) * x[0] - b * x[1] + x[2] * (a + b) + x[3])
    return s


def _df(a, b, x, M, k):
    if a == b:
        return -(M.mpf(1) / 4 if M is mpmath else 0.25) * M.sin(x[0] + 2 * x[1] - x[2] + (a + 1) * x[3]) * (1, 2, -1, a + 1)[k]
    return (M.mpf(1) / 5 if M is mpmath else 0.2) * M.cos((a + 1) * x[0] - b * x[1] + x[2] * (a + b) + x[3]) * (a + 1, -b, a + b, 1)[k]


class UMetric:
    __name__ = "UMetric"

    def __init__(self, pattern=None, dep=(0, 1, 2, 3)):
        self.pattern = pattern or [(a, b) for a in range(4) for b in range(a, 4)]
        self.dep = dep

    def sym(self, a, b, x, k=None):
        e = eng()
        memo = e.memo.setdefault("umetric", {})
        key = (a, b, k) + tuple(v.key() for v in x)
        if key not in memo:
            if k is None:
                fn = lambda *z: _f(a, b, z, mpmath)
            else:
                fn = lambda *z: _df(a, b, z, mpmath, k)
            i = e.gen(f"G{a}{b}{'' if k is None else 'd%d' % k}_{len(memo)}", kind="ufun", fn=fn, args=list(x))
            memo[key] = var(i)
        return memo[key]

    def __call__(self, x, *params):
        dual = type(x[0]).__name__ == "DualNumber"
        vals = [c.val if dual else c for c in x]
        symbolic = any(isinstance(v, SymReal) for v in vals)
        g = np.zeros((4, 4), dtype=object)
        if symbolic:
            vals = [lift(v) for v in vals]
        for a, b in self.pattern:
            if symbolic:
                v = self.sym(a, b, vals)
            else:
                v = _f(a, b, vals, math)
            if dual:
                d = 0
                for k in range(4):
                    dk = x[k].deriv
                    if isinstance(dk, SymReal) or dk != 0:
                        d = d + dk * (self.sym(a, b, vals, k) if symbolic else _df(a, b, vals, math, k))
                v = type(x[0])(v, d)
            g[a, b] = g[b, a] = v
        if dual:
            return g
        if symbolic:
            from .nproxy import SymArray
            return g.view(SymArray)
        return g.astype(float)
