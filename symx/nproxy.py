"""Stand-in for the numpy module inside the code under test: falls back to
numpy, but keeps symbolic entries (object arrays) where numpy wants floats."""
import math
import types
from fractions import Fraction

import numpy as np

from . import funcs as F
from .real import (SymReal, Bool, Const, And, Or, Not, lift, is_num, Concretised, eng, tobool,
                   compare, SZERO, SONE, diff)


class SymArray(np.ndarray):
    """Object array that ignores casts to float."""

    def astype(self, dtype, *a, **k):
        if _floaty(dtype) and self.dtype == object:
            return self.copy()
        return np.ndarray.astype(self, dtype, *a, **k)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [x.view(np.ndarray) if isinstance(x, SymArray) else x for x in inputs]
        out = kw.get("out")
        if method == "__call__" and (ufunc.__name__ in F.UNARY or ufunc.__name__ in F.BINARY):
            r = F.ufunc(ufunc, method, ins, dict(kw))
            return r
        if out is not None:
            kw["out"] = tuple(o.view(np.ndarray) if isinstance(o, SymArray) else o for o in out)
        r = getattr(ufunc, method)(*ins, **kw)
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
        return r

    def __matmul__(self, o):
        return abbreviate(np.ndarray.__matmul__(self, o))

    def __rmatmul__(self, o):
        return abbreviate(np.ndarray.__rmatmul__(self, o))

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel()[0])
        raise ValueError("The truth value of an array is ambiguous")

    # masks: symbolic truth values are decided (forking) where numpy needs them
    def __getitem__(self, i):
        i = tuple(settled(k) for k in i) if isinstance(i, tuple) else settled(i)
        return np.ndarray.__getitem__(self, i)

    def __setitem__(self, i, v):
        i = tuple(settled(k) for k in i) if isinstance(i, tuple) else settled(i)
        np.ndarray.__setitem__(self, i, v)

    def clip(self, *a, **k):
        return clip(self, *a, **k)

    def any(self, *a, **k):
        return any_(self, *a, **k)

    def all(self, *a, **k):
        return all_(self, *a, **k)


def _settling(n):
    def m(self, *a, **k):
        x = settled(self)
        if x is not self:
            return getattr(x, n)(*a, **k)
        return getattr(np.ndarray, n)(self, *a, **k)
    m.__name__ = n
    return m


for _n in ("argmax", "argmin", "nonzero", "sum", "cumsum"):
    setattr(SymArray, _n, _settling(_n))
del _n


def settled(a):
    """An array of symbolic truth values as a bool array, one fork each."""
    if isinstance(a, np.ndarray) and a.dtype == object and a.size and all(isinstance(v, (Bool, bool, np.bool_)) for v in a.ravel()):
        return np.array([bool(v) for v in a.ravel()], dtype=bool).reshape(a.shape)
    return a


def _settled_fn(n):
    f = getattr(np, n)

    def g(a, *r, **k):
        return f(settled(a), *r, **k)
    g.__name__ = n
    return g


def abbreviate(a):
    """With eng().abbrev set: name the large entries of a matrix product by
    fresh generators (same expression, same name), which keeps long
    compositions of uninterpreted functions small."""
    e = eng()
    lim = getattr(e, "abbrev", None)
    if lim is None:
        return a
    if isinstance(a, np.ndarray) and a.ndim:
        r = a.copy()
        for i in np.ndindex(*a.shape):
            r[i] = abbreviate(a[i])
        return r
    if isinstance(a, np.ndarray):
        a = a.item()
    if not isinstance(a, SymReal) or (len(a.num.d) <= lim and not a.den):
        return a
    from .real import var
    memo = e.memo.setdefault("abbr", {})
    k = a.key()
    if k not in memo:
        i = e.gen(f"abbr{len(memo)}", kind="abbr", of=a)
        y = var(i)
        e.info[i]["diff"] = lambda D, a=a: D(a)
        e.info[i]["constraints"] = [compare(y, a, "==")]
        memo[k] = y
    return memo[k]


def _floaty(dtype):
    if dtype is None:
        return False
    if dtype is float or dtype is symfloat:
        return True
    try:
        return np.dtype(dtype).kind in "f"
    except TypeError:
        return False


def has_sym(x, depth=0):
    if isinstance(x, (SymReal, Bool)):
        return True
    if type(x).__name__ in ("SymQuantity", "Series"):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(v) for v in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(v, depth + 1) for v in x)
    return False


class _FloatMeta(type):
    def __call__(cls, x=0.0, *a):
        if isinstance(x, SymReal) or type(x).__name__ == "Series":
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.ravel()[0])
        if type(x).__name__ == "SymQuantity":
            return x.to_value("")
        return float(x)

    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, SymReal)


class symfloat(metaclass=_FloatMeta):
    """Replaces the builtin float in the modules under test."""


class _IntMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, Bool):
            return int(bool(x))
        if isinstance(x, SymReal):
            if x.is_const():
                return int(x.const())
            # int() truncates: nondeterministic integer part for x
            return trunc_sym(x)
        return int(x, *a)

    def __instancecheck__(cls, x):
        return isinstance(x, int)


def trunc_sym(x):
    """int(x) of a symbolic real: an arbitrary value within 1 of x, on the
    zero side (over-approximation: integrality is dropped)."""
    from .real import var
    e = eng()
    memo = e.memo.setdefault("trunc", {})
    k = x.key()
    if k not in memo:
        i = e.gen(f"trunc{len(memo)}", kind="trunc", of=x)
        y = var(i)
        e.info[i]["constraints"] = [y <= x, y > x - 1, y >= 0] if bool(x >= 0) else [y >= x, y < x + 1, y <= 0]
        memo[k] = y
    return memo[k]


class symint(metaclass=_IntMeta):
    """Replaces the builtin int in the modules under test."""


def _symarr(a):
    if isinstance(a, np.ndarray) and a.dtype == object and not isinstance(a, SymArray):
        return a.view(SymArray)
    return a


def _obj(x):
    a = np.array(x, dtype=object)
    return a.view(SymArray)


def array(x, dtype=None, *a, **k):
    if dtype is symfloat:
        dtype = float
    if dtype is symint:
        dtype = int
    if has_sym(x):
        if isinstance(x, SymReal):
            r = np.empty((), dtype=object)
            r[()] = x
            return r.view(SymArray)
        return _obj(x)
    r = np.array(x, dtype, *a, **k)
    if r.dtype.kind == "f" and r.ndim:
        return _obj(r)           # may receive symbolic entries later
    return r


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, np.ndarray) and (x.dtype == object or dtype is None):
        return x
    return array(x, dtype)


def zeros(shape, dtype=float, *a, **k):
    if dtype is symfloat:
        dtype = float
    if dtype is symint:
        dtype = int
    if _floaty(dtype):
        r = np.empty(shape, dtype=object)
        r[...] = 0
        return r.view(SymArray)
    r = np.zeros(shape, dtype, *a, **k)
    return _symarr(r)


def ones(shape, dtype=float, *a, **k):
    if dtype is symint:
        dtype = int
    if dtype is symfloat or _floaty(dtype):
        r = np.empty(shape, dtype=object)
        r[...] = 1
        return r.view(SymArray)
    return np.ones(shape, dtype, *a, **k)


def empty(shape, dtype=float, *a, **k):
    return zeros(shape, dtype)


def full(shape, v, dtype=None, *a, **k):
    if has_sym(v) or isinstance(v, float):
        r = np.empty(shape, dtype=object)
        r[...] = v
        return r.view(SymArray)
    return np.full(shape, v, dtype, *a, **k)


def zeros_like(a, dtype=None, *x, **k):
    if dtype is None and isinstance(a, np.ndarray) and a.dtype.kind in "ib":
        return np.zeros_like(a)
    return zeros(np.shape(a), float if dtype is None else dtype)


def ones_like(a, dtype=None, *x, **k):
    return ones(np.shape(a), float if dtype is None else dtype)


def empty_like(a, *x, **k):
    return zeros_like(a)


def eye(n, *a, **k):
    r = zeros((n, n))
    for i in range(n):
        r[i, i] = 1
    return r


def inv(m):
    m = np.asarray(m)
    if m.dtype != object or not has_sym(m):
        return np.linalg.inv(m.astype(float))
    n = m.shape[0]
    M = [[lift(m[i, j]) for j in range(n)] for i in range(n)]
    # blocks of the nonzero pattern
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if i != j and (M[i][j].num.d or M[j][i].num.d):
                comp[find(i)] = find(j)
    blocks = {}
    for i in range(n):
        blocks.setdefault(find(i), []).append(i)
    R = zeros((n, n))
    for b in blocks.values():
        sub = [[M[i][j] for j in b] for i in b]
        si = _inv_block(sub)
        for x, i in enumerate(b):
            for y, j in enumerate(b):
                R[i, j] = si[x][y]
    return R


def _minor(m, i, j):
    return [[m[a][b] for b in range(len(m)) if b != j] for a in range(len(m)) if a != i]


def det_list(m):
    n = len(m)
    if n == 0:
        return SONE
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = SZERO
    for j in range(n):
        if m[0][j].num.d:
            t = m[0][j] * det_list(_minor(m, 0, j))
            r = r + t if j % 2 == 0 else r - t
    return r


def _inv_block(m):
    n = len(m)
    d = det_list(m)
    if not d.num.d:
        raise np.linalg.LinAlgError("Singular matrix")
    di = d.recip()
    return [[(det_list(_minor(m, j, i)) * (1 if (i + j) % 2 == 0 else -1)) * di for j in range(n)] for i in range(n)]


def det(m):
    m = np.asarray(m)
    if m.dtype != object:
        return np.linalg.det(m)
    return det_list([[lift(v) for v in row] for row in m])


def norm(v, ord=None, axis=None):
    v = np.asarray(v)
    if v.dtype != object:
        return np.linalg.norm(v, ord, axis)
    if axis is not None or ord not in (None, 2):
        raise Concretised("norm with axis/ord")
    s = SZERO
    for x in v.ravel():
        s = s + lift(x) * x
    return F.sqrt(s)


def solve(a, b):
    r = inv(a) @ np.asarray(b)
    return r


class _Linalg:
    inv = staticmethod(inv)
    det = staticmethod(det)
    norm = staticmethod(norm)
    solve = staticmethod(solve)

    @staticmethod
    def multi_dot(arrays, **kw):
        return multi_dot(arrays, **kw)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(a, b, rtol, atol, equal_nan)
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        x, y = lift(a[i]), lift(b[i])
        tol = lift(atol) + lift(rtol) * F.absolute(y)
        d = x - y
        out[i] = And(F.tb(d <= tol), F.tb(-d <= tol))
    return out if out.shape else out[()]


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.allclose(a, b, rtol, atol, equal_nan)
    r = isclose(a, b, rtol, atol)
    if isinstance(r, np.ndarray):
        return And(*list(r.ravel()))
    return r


def clip(x, a_min=None, a_max=None, *r, **k):
    a_min, a_max = k.pop("min", a_min), k.pop("max", a_max)
    if not any(has_sym(v) for v in (x, a_min, a_max)):
        return np.clip(x, a_min, a_max, *r, **k)

    def one(v, lo, hi):
        if lo is not None:
            v = F.maximum(v, lo)
        return v if hi is None else F.minimum(v, hi)
    if isinstance(x, (np.ndarray, list, tuple)):
        o = np.asarray(x, dtype=object)
        o, lo, hi = np.broadcast_arrays(o, np.array(a_min, dtype=object), np.array(a_max, dtype=object))
        y = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            y[i] = one(o[i], lo[i], hi[i])
        return y.view(SymArray)
    return one(x, a_min, a_max)


def linspace(a, b, num=50, endpoint=True, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.linspace(a, b, num, endpoint=endpoint, **k)
    num = int(num)
    d = (num - 1) if endpoint else num
    return _obj([lift(a) + (lift(b) - a) * Fraction(i, d) if d else lift(a) for i in range(num)])


def where(c, *xy):
    if not xy:
        return np.where(settled(c))
    if isinstance(c, (Bool,)):
        return xy[0] if bool(c) else xy[1]
    if isinstance(c, np.ndarray) and c.dtype == object:
        c, x, y = np.broadcast_arrays(c, np.asarray(xy[0], dtype=object), np.asarray(xy[1], dtype=object))
        r = np.empty(c.shape, dtype=object)
        for i in np.ndindex(*c.shape):
            r[i] = x[i] if bool(c[i]) else y[i]
        return r.view(SymArray)
    return np.where(c, *xy)


def isreal(x):
    if has_sym(x):
        return True
    return np.isreal(x)


def real_(x):
    return x if has_sym(x) else np.real(x)


def float64(x=0.0):
    return x if has_sym(x) else np.float64(x)


def any_(x, *a, **k):
    if (has_sym(x) or isinstance(x, Bool)) and (a or k):
        return np.any(np.vectorize(lambda v: bool(tobool(v)), otypes=[bool])(x), *a, **k)
    if has_sym(x) or isinstance(x, Bool):
        return Or(*[tobool(v) for v in np.asarray(x, dtype=object).ravel()])
    return np.any(x, *a, **k)


def all_(x, *a, **k):
    if (has_sym(x) or isinstance(x, Bool)) and (a or k):
        return np.all(np.vectorize(lambda v: bool(tobool(v)), otypes=[bool])(x), *a, **k)
    if has_sym(x) or isinstance(x, Bool):
        return And(*[tobool(v) for v in np.asarray(x, dtype=object).ravel()])
    return np.all(x, *a, **k)


def _product(name):
    f = getattr(np, name)

    def g(*args, **kw):
        if any(has_sym(a) for a in args):
            args = [_obj(a) if isinstance(a, (list, tuple)) and has_sym(a) else a for a in args]
            args = [a.view(np.ndarray) if isinstance(a, SymArray) else a for a in args]
            r = f(*args, **kw)
            if isinstance(r, np.ndarray) and r.ndim:
                r = r.view(SymArray)
            return abbreviate(r)
        return f(*args, **kw)
    g.__name__ = name
    return g


dot = _product("dot")


def multi_dot(arrays, **kw):
    if any(has_sym(a) for a in arrays):
        arrays = [_obj(a) for a in arrays]
        r = arrays[-1]
        for a in arrays[-2::-1]:
            r = dot(a, r)
        return r
    return np.linalg.multi_dot(arrays, **kw)


def vdot(a, b):
    return dot(np.ravel(a), np.ravel(b))


def einsum(spec, *ops, **k):
    if any(has_sym(o) for o in ops):
        if not isinstance(spec, str):
            return _np_einsum(spec, *ops)
        k = {n: v for n, v in k.items() if n not in ("optimize", "dtype")}
        r = np.einsum(spec, *[np.asarray(o, dtype=object) for o in ops], optimize=False, **k)
        return abbreviate(r.view(SymArray) if isinstance(r, np.ndarray) and r.ndim else r)
    return np.einsum(spec, *ops, **k)


def _np_einsum(*a):
    return abbreviate(np.einsum(*[x.view(np.ndarray) if isinstance(x, SymArray) else x for x in a]))


class _Emath:
    @staticmethod
    def sqrt(x):
        return F.sqrt(x) if isinstance(x, SymReal) else np.emath.sqrt(x)

    def __getattr__(self, n):
        return getattr(np.emath, n)


class NumpyProxy(types.ModuleType):
    OVER = dict(array=array, asarray=asarray, asanyarray=asarray, zeros=zeros, ones=ones, empty=empty, full=full,
                zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, eye=eye,
                identity=eye, clip=clip, isclose=isclose, allclose=allclose, linspace=linspace, where=where,
                isreal=isreal, real=real_, float64=float64, any=any_, all=all_, **{n: _settled_fn(n) for n in ("argmax", "argmin", "nonzero", "flatnonzero", "argwhere", "count_nonzero", "sum", "cumsum")}, einsum=einsum, vdot=vdot, **{n: _product(n) for n in ("dot", "inner", "outer", "matmul", "tensordot")})

    def __init__(self):
        super().__init__("numpy")
        self.linalg = _Linalg()
        self.emath = _Emath()

    def __getattr__(self, n):
        if n in self.OVER:
            return self.OVER[n]
        f = getattr(np, n)
        if n in UF:
            return UF[n]
        return f


def _wrap_ufunc(n):
    f = getattr(np, n)

    def g(*args, **kw):
        if any(has_sym(a) for a in args):
            args = [_obj(a) if isinstance(a, (list, tuple)) else a for a in args]
            return F.ufunc(f, "__call__", args, kw)
        args2 = []
        for a in args:
            if isinstance(a, np.ndarray) and a.dtype == object:
                # object array of plain numbers / duck-typed numbers
                return F.ufunc(f, "__call__", args, kw)
            args2.append(a)
        return f(*args2, **kw)
    g.__name__ = n
    return g


UF = {n: _wrap_ufunc(n) for n in set(F.UNARY) | set(F.BINARY) if hasattr(np, n)}
UF["abs"] = UF["absolute"]
UF["arcsin"] = _wrap_ufunc("arcsin")
for _a, _b in (("acos", "arccos"), ("asin", "arcsin"), ("atan", "arctan"), ("atan2", "arctan2"), ("pow", "power")):
    UF[_a] = UF[_b]

PROXY = NumpyProxy()


class MathProxy(types.ModuleType):
    M = {"sqrt": F.sqrt, "sin": F.sin, "cos": F.cos, "tan": F.tan, "exp": F.exp, "log": F.log, "hypot": F.hypot,
         "atan2": F.arctan2, "acos": F.arccos, "asin": F.arcsin, "atan": F.arctan, "pow": F.power, "fabs": F.absolute,
         "sinh": F.sinh, "cosh": F.cosh, "tanh": F.tanh}

    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        f = getattr(math, n)
        if n in self.M:
            g = self.M[n]

            def h(*a):
                if any(isinstance(x, SymReal) for x in a):
                    return g(*a)
                return f(*a)
            return h
        if n == "isclose":
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: isclose(a, b, rel_tol, abs_tol) if has_sym([a, b]) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        if n in ("isnan", "isinf"):
            return lambda x: False if isinstance(x, SymReal) else f(x)
        return f


MATH = MathProxy()


def patch_modules(prefix="einsteinpy"):
    """Replace numpy/math (module objects and functions imported from them) and
    float/int in every loaded module of the package.  Returns an undo list."""
    import sys
    undo = []
    np_funcs = {}
    for n in set(UF) | set(NumpyProxy.OVER):
        if hasattr(np, n):
            try:
                np_funcs[id(getattr(np, n))] = getattr(PROXY, n)
            except AttributeError:
                pass
    for n in MathProxy.M:
        np_funcs[id(getattr(math, n))] = getattr(MATH, n)
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + ".")) or name.startswith(prefix + ".symbolic"):
            continue
        g = mod.__dict__
        for k, v in list(g.items()):
            if k.startswith("__"):
                continue
            new = None
            if v is np:
                new = PROXY
            elif v is math:
                new = MATH
            elif v is np.linalg:
                new = PROXY.linalg
            elif id(v) in np_funcs and callable(v):
                new = np_funcs[id(v)]
            if new is not None:
                undo.append((g, k, v))
                g[k] = new
        for k, new in (("float", symfloat), ("int", symint)):
            if k not in g:
                undo.append((g, k, None))
                g[k] = new
    return undo


def unpatch(undo):
    for g, k, v in undo:
        if v is None:
            g.pop(k, None)
        else:
            g[k] = v
