"""Truncated Taylor series: mark a generator h so that every polynomial is kept
modulo h^(n+1); coefficients of a result; claims on series coefficients."""
from fractions import Fraction

from . import poly as P
from .poly import Poly, W, MASK
from .real import SymReal, lift, SZERO, Concretised


def truncate(h, n):
    """From now on drop every term above h**n (h: an input SymReal)."""
    (i,) = h.num.gens()
    P.CTX.trunc = (i, n)
    return i


def coeff(x, h, k):
    """Coefficient of h**k of a series without h in its denominator."""
    (i,) = h.num.gens()
    x = lift(x)
    for f, e in x.den:
        if i in f.gens():
            raise Concretised("denominator depends on the step size")
    out = {}
    s = i * W
    for m, c in x.num.d.items():
        if (m >> s) & MASK == k:
            out[m - (k << s)] = c
    return SymReal(Poly(out), x.den)


def integrate(x, h):
    """Antiderivative in h vanishing at h = 0, truncated."""
    (i,) = h.num.gens()
    n = P.CTX.trunc[1]
    s = i * W
    out = {}
    for m, c in x.num.d.items():
        k = (m >> s) & MASK
        if k + 1 <= n:
            out[m + (1 << s)] = P._norm(Fraction(c) / (k + 1))
    return SymReal(Poly(out), x.den)


def flow(rhs, y0, h):
    """Exact solution of y' = rhs(y), y(0) = y0 as truncated series (Picard)."""
    n = P.CTX.trunc[1]
    y = [lift(v) for v in y0]
    z = list(y)
    for _ in range(n):
        f = rhs(z)
        z = [a + integrate(lift(b), h) for a, b in zip(y, f)]
    return z
