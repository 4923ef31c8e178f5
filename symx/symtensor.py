"""Symbolic tensors: the real einsteinpy.symbolic code runs on sympy objects
whose components are undefined functions of the coordinates; what it returns is
translated to solver terms over their jets (values, first and second
derivatives at a point), which are the declared inputs.

Stubs during a run (both are value-preserving library calls): sympy.simplify is
the identity, and the inverse of a registered metric matrix is a matrix of
functions whose jets are those of the exact inverse."""
import contextlib
import math
import sys
from fractions import Fraction

import numpy as np

from . import funcs as F
from . import real as R
from .poly import Poly
from .real import SymReal, lift


# ------------------------------------------------------------------ stubs
@contextlib.contextmanager
def stubbed(arena=None, simplify=True):
    import sympy
    from sympy.matrices.matrixbase import MatrixBase
    real_simplify = sympy.simplify
    real_inv = MatrixBase.inv
    undo = []

    def ident(e, *a, **k):
        return e

    if simplify:
        undo.append((sympy, "simplify", real_simplify))
        sympy.simplify = ident
        for n, m in list(sys.modules.items()):
            if m is not None and n.startswith("einsteinpy"):
                for k, v in list(vars(m).items()):
                    if v is real_simplify:
                        undo.append((m, k, v))
                        setattr(m, k, ident)

    if arena is not None and arena.inverses:
        def inv(self, *a, **k):
            for m, h in arena.inverses:
                if self.shape == m.shape and all(x == y for x, y in zip(self.flat(), m.flat())):
                    return self._new(*h.shape, list(h.flat()))
            return real_inv(self, *a, **k)
        MatrixBase.inv = inv
    try:
        yield
    finally:
        for m, k, v in undo:
            setattr(m, k, v)
        MatrixBase.inv = real_inv


# ------------------------------------------------------------------ numbers
def denoise(f):
    """(rational, power of pi) meant by a float."""
    f = float(f)
    for k in (0, 1, -1, 2, -2):
        q = f / math.pi ** k
        g = Fraction(q).limit_denominator(5040)
        if g != 0 and abs(float(g) - q) <= 1e-15 * abs(q) and (k == 0 or g.numerator <= 5040):
            return g, k
    return Fraction(repr(f)), 0


class Arena:
    def __init__(self, mk, dims, names=None, truth=False):
        import sympy
        self.mk = mk
        self.n = dims
        self.sym = mk.symbolic
        self.truth = not mk.symbolic and truth   # concrete mode on genuine polynomials
        self.x = sympy.symbols(" ".join(names) if names else " ".join(f"x{i}" for i in range(dims)))
        if dims == 1:
            self.x = (self.x,)
        self.jets = {}
        self.symval = {}
        self.inverses = []
        self.bessels = {}
        self.memo = {}
        self.env = {}

    # ---- declaring functions
    def num(self, v):
        import sympy
        if isinstance(v, (int, Fraction)):
            return sympy.Rational(v)
        return sympy.Rational(repr(float(v)))

    def fn(self, name, j0, j1=None, j2=None):
        """Function of the coordinates with value j0, gradient j1(k) and second
        derivatives j2(k, l) at the point."""
        import sympy
        if self.truth:
            e = self.num(j0)
            for k in range(self.n):
                if j1 is not None:
                    e += self.num(j1(k)) * self.x[k]
                if j2 is not None:
                    for l in range(self.n):
                        e += self.num(j2(k, l)) * self.x[k] * self.x[l] / 2
            return e
        self.jets[name] = (j0, j1, j2)
        return sympy.Function(name)(*self.x)

    def sy(self, name, v):
        import sympy
        if self.truth:
            return self.num(v)
        s = sympy.Symbol(name)
        self.symval[s] = v
        return s

    # ---- translation
    def val(self, e):
        import sympy
        e = sympy.sympify(e)
        if self.truth:
            return float(e.subs({x: 0 for x in self.x}).subs({k: self.num(v) for k, v in self.symval.items()}))
        return self._v(e)

    def _v(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self._tr(e)
        return r

    def const(self, q):
        if self.sym:
            return lift(q)
        return float(q)

    def pi(self, k=1):
        if self.sym:
            p = F.PI()
            return p.ipow(k) if k >= 0 else p.ipow(-k).recip()
        return math.pi ** k

    def _tr(self, e):
        import sympy
        from sympy.core.function import AppliedUndef
        if e.is_Symbol:
            if e in self.symval:
                return self.symval[e]
            for s, v in self.symval.items():      # same name, other assumptions
                if s.name == e.name:
                    return v
            raise KeyError(f"unknown symbol {e}")
        if e.is_Integer:
            return self.const(int(e))
        if e.is_Rational:
            return self.const(Fraction(int(e.p), int(e.q)))
        if e.is_Float:
            if not self.sym:
                return float(e)
            g, k = denoise(e)
            return self.const(g) if k == 0 else self.const(g) * self.pi(k)
        if e is sympy.pi:
            return self.pi()
        if e is sympy.E:
            return F.exp(lift(1)) if self.sym else math.e
        if e.is_Add:
            return self._sum([self._v(a) for a in e.args])
        if e.is_Mul:
            r = None
            for a in e.args:
                v = self._v(a)
                if isinstance(v, SymReal) and not v.num.d:
                    return v
                r = v if r is None else r * v
            return r
        if e.is_Pow:
            b, x = e.args
            if x.is_Integer:
                v = self._v(b)
                if isinstance(v, SymReal):
                    return v.ipow(int(x))
                return v ** int(x)
            if b is sympy.E:
                return self._f1("exp", self._v(x))
            if x.is_Rational and self.sym:
                return F.power(lift(self._v(b)), Fraction(int(x.p), int(x.q)))
            if self.sym:
                # b**(n + k*s) = b**n * (b**s)**k
                r, bv = None, lift(self._v(b))
                for t in sympy.Add.make_args(sympy.expand(sympy.nsimplify(x))):
                    k, s = t.as_coeff_Mul()
                    if s is sympy.S.One:
                        f = F.power(bv, Fraction(int(k.p), int(k.q)))
                    elif k.is_Integer:
                        f = F.power(bv, self._v(s)).ipow(int(k))
                    else:
                        f = F.power(bv, self._v(t))
                    r = f if r is None else r * f
                return r
            b, x = self._v(b), self._v(x)
            return F.power(lift(b), x) if self.sym else float(b) ** float(x)
        if isinstance(e, AppliedUndef):
            return self.jets[e.func.__name__][0]
        if isinstance(e, sympy.Derivative):
            f = e.expr
            if isinstance(f, AppliedUndef):
                ks = []
                for v, c in e.variable_count:
                    ks += [self.x.index(v)] * int(c)
                j = self.jets[f.func.__name__]
                if len(ks) == 1:
                    return j[1](ks[0])
                if len(ks) == 2:
                    return j[2](*sorted(ks))
            raise KeyError(f"derivative {e}")
        if isinstance(e, sympy.Subs):
            return self._v(e.doit())
        n = type(e).__name__
        if n == "besselj" and e.args[0].is_Integer:
            return self.bessel(int(e.args[0]), e.args[1])
        if n in ("sin", "cos", "tan", "sinh", "cosh", "tanh", "exp", "log", "Abs"):
            return self._f1(n, self._v(e.args[0]))
        raise KeyError(f"cannot translate {type(e)} {e}"[:200])

    def bessel(self, n, x):
        """J_n at the argument whose J_0, J_1 were declared in .bessels."""
        j0, j1 = self.bessels[x]
        if n < 0:
            return self.bessel(-n, x) * (-1) ** n
        if n < 2:
            return (j0, j1)[n]
        return self.bessel(n - 1, x) * (2 * (n - 1)) / self._v(x) - self.bessel(n - 2, x)

    def _sum(self, xs):
        if not self.sym:
            return sum(xs)
        # add polynomials in place, group by denominator
        groups = {}
        for v in xs:
            v = lift(v)
            groups.setdefault(v.den, []).append(v.num)
        out = None
        for den, nums in groups.items():
            d = {}
            for p in nums:
                for m, c in p.d.items():
                    d[m] = d.get(m, 0) + c
            p = Poly({m: c for m, c in d.items() if c})
            s = R.simp(p, den)
            out = s if out is None else out + s
        return out

    def _f1(self, n, v):
        if self.sym:
            if n == "Abs":
                return F.absolute(lift(v))
            return getattr(F, n)(lift(v))
        return {"Abs": abs}.get(n, getattr(math, n, None))(v)

    def arr(self, t):
        """Values of a tensor object / sympy array, as an object array."""
        a = t.tensor() if hasattr(t, "tensor") else t
        if not hasattr(a, "shape"):
            return self.val(a)
        sh = tuple(int(s) for s in a.shape)
        if sh == ():
            return np.array(self.val(a[()]), dtype=object)
        out = np.empty(sh, dtype=object)
        flat = a._array if hasattr(a, "_array") else None
        for i in np.ndindex(*sh):
            out[i] = self.val(a[i])
        return out

    # ---- metrics
    def metric(self, g, dg=None, ddg=None, h=None, config="ll", names=("g", "h")):
        """MetricTensor with value matrix g (numbers / solver terms; 0 where the
        component vanishes identically), derivatives dg(k,i,j), ddg(k,l,i,j),
        and exact inverse h."""
        import sympy
        from einsteinpy.symbolic import MetricTensor
        n = self.n
        gg = lambda i, j: (min(i, j), max(i, j))
        zero = self.const(0)
        Z = lambda v: isinstance(v, (int, float)) and v == 0
        pat = [[not Z(g[i][j]) or (dg is not None and any(not Z(dg(k, i, j)) for k in range(n))) for j in range(n)] for i in range(n)]

        # the inverse vanishes identically between unconnected blocks
        comp = list(range(n))
        for i in range(n):
            for j in range(n):
                if pat[i][j] or pat[j][i]:
                    a, b = comp[i], comp[j]
                    comp = [a if q == b else q for q in comp]

        def low(i, j):
            a, b = gg(i, j)
            if not pat[a][b]:
                return sympy.S.Zero
            nm = f"{names[0]}{a}{b}"
            return self.fn(nm, g[a][b], (lambda k: dg(k, a, b)) if dg else None, (lambda k, l: ddg(k, l, a, b)) if ddg else None)
        M = sympy.Matrix(n, n, lambda i, j: low(i, j))
        H = None
        if h is not None and not self.truth:
            cache = {}

            def dh(k, a, b):
                key = (k, a, b)
                if key not in cache:
                    cache[key] = -self._sum([h[a][i] * dg(k, i, j) * h[j][b] for i in range(n) for j in range(n)
                                             if not Z(h[a][i]) and not Z(h[j][b]) and not Z(dg(k, i, j))] or [zero])
                return cache[key]

            def ddh(k, l, a, b):
                key = (k, l, a, b)
                if key not in cache:
                    t = [dh(l, a, i) * dg(k, i, j) * h[j][b] + h[a][i] * ddg(k, l, i, j) * h[j][b] + h[a][i] * dg(k, i, j) * dh(l, j, b)
                         for i in range(n) for j in range(n)]
                    cache[key] = -self._sum(t)
                return cache[key]

            def up(i, j):
                a, b = gg(i, j)
                if comp[a] != comp[b]:
                    return sympy.S.Zero
                return self.fn(f"{names[1]}{a}{b}", h[a][b], (lambda k: dh(k, a, b)) if dg else None, (lambda k, l: ddh(k, l, a, b)) if ddg else None)
            H = sympy.Matrix(n, n, lambda i, j: up(i, j))
            self.inverses += [(M, H), (H, M)]
        if config == "uu":
            src = H if H is not None else M.inv()
        else:
            src = M
        return MetricTensor(src.tolist(), self.x, config=config)

    def stubbed(self):
        return stubbed(self)


# ------------------------------------------------------------------ inputs
def pairs(n):
    return [(i, j) for i in range(n) for j in range(i, n)]


def jet_inputs(c, n, pat=None, second=True, coords=None, pre="g"):
    """Derivatives of a symmetric matrix as inputs: dg(k,ij), ddg(kl,ij)."""
    d = {}
    pat = pat or pairs(n)
    coords = range(n) if coords is None else coords
    for i, j in pat:
        for k in coords:
            d[f"{pre}{i}{j}d{k}"] = c.real(f"{pre}{i}{j}d{k}", -1, 1)
        if second:
            for k in coords:
                for l in coords:
                    if k <= l:
                        d[f"{pre}{i}{j}d{k}{l}"] = c.real(f"{pre}{i}{j}d{k}{l}", -1, 1)
    return d


def jets_of(inp, pre="g"):
    def dg(k, i, j):
        i, j = min(i, j), max(i, j)
        return inp.get(f"{pre}{i}{j}d{k}", 0)

    def ddg(k, l, i, j):
        i, j = min(i, j), max(i, j)
        k, l = min(k, l), max(k, l)
        return inp.get(f"{pre}{i}{j}d{k}{l}", 0)
    return dg, ddg


def ldl_inputs(c, n, off=None, pre=""):
    """Inputs of a symmetric matrix L D L^T (all with non-zero leading minors);
    off lists the non-zero entries of L."""
    d = {}
    for i in range(n):
        d[f"{pre}d{i}"] = c.real(f"{pre}d{i}", 0.5, 2)
        c.assume(d[f"{pre}d{i}"] != 0)
    for i, j in (off if off is not None else [(i, j) for i in range(n) for j in range(i)]):
        d[f"{pre}l{i}{j}"] = c.real(f"{pre}l{i}{j}", -1, 1)
    return d


def ldl(inp, n, pre=""):
    """(g, h) of the LDL inputs: g = L D L^T and its exact inverse."""
    one = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    L = [[inp.get(f"{pre}l{i}{j}", 0) if j < i else one[i][j] for j in range(n)] for i in range(n)]
    D = [inp[f"{pre}d{i}"] for i in range(n)]
    # inverse of a unit lower triangular matrix by forward substitution
    V = [[0] * n for _ in range(n)]
    for j in range(n):
        for i in range(n):
            if i < j:
                continue
            V[i][j] = one[i][j] - _s([_m(L[i][k], V[k][j]) for k in range(j, i)])
    g = [[_s([_m(_m(L[i][k], D[k]), L[j][k]) for k in range(n)]) for j in range(n)] for i in range(n)]
    h = [[_s([_m(_m(V[k][i], 1 / D[k]), V[k][j]) for k in range(n)]) for j in range(n)] for i in range(n)]
    return g, h


def _z(a):
    return isinstance(a, (int, float)) and a == 0


def _m(a, b):
    return 0 if _z(a) or _z(b) else a * b


def _s(xs):
    r = 0
    for x in xs:
        if not _z(x):
            r = x if _z(r) else r + x
    return r


def fixed_metric(n, which=0):
    """A dense rational symmetric matrix (Lorentzian for which=1) and its exact
    inverse."""
    base = [[Fraction(-3 if which == 1 and i == 0 else 3 + i) if i == j else Fraction((-1) ** (i + j + which), 1 + abs(i - j) + which)
             for j in range(n)] for i in range(n)]
    return base, frac_inv(base)


def frac_inv(m):
    n = len(m)
    a = [list(map(Fraction, r)) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for i in range(n):
        p = next(k for k in range(i, n) if a[k][i] != 0)
        a[i], a[p] = a[p], a[i]
        a[i] = [v / a[i][i] for v in a[i]]
        for k in range(n):
            if k != i and a[k][i] != 0:
                f = a[k][i]
                a[k] = [x - f * y for x, y in zip(a[k], a[i])]
    return [r[n:] for r in a]


# ------------------------------------------------------------------ oracles
class Geo:
    """Textbook Levi-Civita geometry from the jets of a metric (numbers or
    solver terms), independent of the code under test."""

    def __init__(self, n, g, h, dg, ddg):
        self.n, self.g, self.h, self.dg, self.ddg = n, g, h, dg, ddg
        self._c1, self._c2, self._R = {}, {}, {}

    def first(self, a, b, c):
        """Gamma_abc = (g_ab,c + g_ac,b - g_bc,a)/2"""
        k = (a, min(b, c), max(b, c))
        if k not in self._c1:
            self._c1[k] = (_a(self.dg(c, a, b)) + self.dg(b, a, c) - self.dg(a, b, c)) * Fraction(1, 2)
        return self._c1[k]

    def second(self, a, b, c):
        k = (a, min(b, c), max(b, c))
        if k not in self._c2:
            self._c2[k] = _s([_m(self.h[a][i], self.first(i, b, c)) for i in range(self.n)])
        return self._c2[k]

    def riem(self, a, b, c, d):
        """R_abcd, all lower (sign: R^a_bcd = d_c Gamma^a_bd - ...)."""
        k = (a, b, c, d)
        if k not in self._R:
            dd = self.ddg
            t = (_a(dd(b, c, a, d)) + dd(a, d, b, c) - dd(a, c, b, d) - dd(b, d, a, c)) * Fraction(1, 2)
            u = _s([_m(self.first(e, b, c), self.second(e, a, d)) for e in range(self.n)])
            v = _s([_m(self.first(e, b, d), self.second(e, a, c)) for e in range(self.n)])
            self._R[k] = t + u - v
        return self._R[k]

    def ricci(self, b, d):
        return _s([_m(self.h[a][c], self.riem(a, b, c, d)) for a in range(self.n) for c in range(self.n)])

    def scalar(self):
        n = self.n
        R = {}
        return _s([_m(self.h[b][d], self.ricci(b, d)) for b in range(n) for d in range(n)])


def _a(x):
    return lift(x)
