"""Elementary functions on symbolic reals."""
import math
from fractions import Fraction
from math import isqrt

import numpy as np

from . import poly as P
from .poly import Poly, W, MASK, _exps
from .real import (SymReal, SZERO, SONE, Bool, Const, Atom, And, Or, Not, TRUE, FALSE,
                   Concretised, lift, is_num, rationalise, eng, var, need, cmp0,
                   known_sign, decide, simp, compare)


# ------------------------------------------------------------------ inputs
def real(name, lo=None, hi=None, positive=False, nonneg=False, nonzero=False, sample=None):
    e = eng()
    i = e.gen(name, kind="input", sample=sample)
    x = var(i)
    if positive:
        e.assumptions.append(x > 0)
    if nonneg:
        e.assumptions.append(x >= 0)
    if nonzero:
        e.assumptions.append(x != 0)
    if lo is not None:
        e.assumptions.append(x >= lo)
    if hi is not None:
        e.assumptions.append(x <= hi)
    return x


def angle(name, polar=False, sample=None):
    """An input angle: a real generator plus its sine and cosine.  polar: in
    the open interval (0, pi)."""
    e = eng()
    i = e.gen(name, kind="angle", input=True, polar=polar, sample=sample)
    _mk_trig(i, name, var(i), polar)
    return var(i)


def _mk_trig(i, name, arg, polar=False):
    """sine/cosine generator pair of the angle `arg` (stored under gen i if not None)."""
    e = eng()
    s = e.gen("s_" + name, kind="sin", polar=polar, arg=arg)
    c = e.gen("c_" + name, kind="cos", arg=arg)
    e.info[s]["pair"] = c
    e.info[c]["pair"] = s
    P.CTX.set_rule(c, 2, P.ONE - Poly.var(s, 2))
    e.info[s]["diff"] = lambda D: var(c) * D(arg)
    e.info[c]["diff"] = lambda D: -(var(s) * D(arg))
    if polar:
        e.sign_cache[(Poly.var(s), (), len(e.assumptions))] = 1
        e.info[s]["pos"] = True
    if i is not None:
        e.info[i]["sin"] = var(s)
        e.info[i]["cos"] = var(c)
    return var(s), var(c)


def PI():
    e = eng()
    if "pi" not in e.memo:
        i = e.gen("pi", kind="const")
        x = var(i)
        e.memo["pi"] = x
        e.info[i]["constraints"] = [x > Fraction(314159, 100000), x < Fraction(314160, 100000)]
    return e.memo["pi"]


# ------------------------------------------------------------------ trig
def _sincos_multiple(s, c, k):
    """sin, cos of k times an angle."""
    if k < 0:
        a, b = _sincos_multiple(s, c, -k)
        return -a, b
    S, C = SZERO, SONE
    for _ in range(k):
        S, C = S * c + C * s, C * c - S * s
    return S, C


def sincos(x):
    x = lift(x)
    e = eng()
    if x.is_const():
        v = x.const()
        if v == 0:
            return SZERO, SONE
    memo = e.memo.setdefault("sincos", {})
    k = x.key()
    if k in memo:
        return memo[k]
    if P.CTX.trunc is not None and not x.den:
        i, n = P.CTX.trunc
        if all((m >> (i * W)) & MASK for m in x.num.d):
            # Taylor series of a small argument, exact modulo h^(n+1)
            S, C, t = SZERO, SZERO, SONE
            for j in range(n + 1):
                sg = -1 if j % 4 in (2, 3) else 1
                if j % 2:
                    S = S + t * sg
                else:
                    C = C + t * sg
                t = t * x * Fraction(1, j + 1)
            memo[k] = (S, C)
            return S, C
    if x.den or len(x.num.d) > 6:
        r = _trig_atom(x)
    else:
        S, C = SZERO, SONE
        for m, co in sorted(x.num.d.items()):
            s1, c1 = _term_sincos(m, co)
            S, C = S * c1 + C * s1, C * c1 - S * s1
        r = (S, C)
    memo[k] = r
    return r


def _term_sincos(m, co):
    e = eng()
    ex = _exps(m)
    co = Fraction(co)
    if len(ex) == 1 and ex[0][1] == 1:
        i = ex[0][0]
        inf = e.info[i]
        if i == _pi_idx():
            return _pi_multiple(co)
        if "sin" in inf and co.denominator == 1 and abs(co) <= 24:
            return _sincos_multiple(inf["sin"], inf["cos"], int(co))
    units = e.memo.setdefault("angunit", {})
    if m not in units:
        u = Fraction(1, co.denominator) if co.denominator != 1 else Fraction(1)
        if abs(co / u) > 24:
            u = abs(co)
        arg = SymReal(Poly({m: P._norm(u)}))
        nm = "a%d" % len(units)
        units[m] = (u,) + _mk_trig(None, nm, arg)
    u, s, c = units[m]
    k = co / u
    if k.denominator == 1 and abs(k) <= 24:
        return _sincos_multiple(s, c, int(k))
    return _trig_atom(SymReal(Poly({m: P._norm(co)})))


def _pi_idx():
    e = eng()
    p = e.memo.get("pi")
    return None if p is None else p.num.gens()[0]


def _pi_multiple(co):
    k = co * 2
    if k.denominator == 1:
        k = int(k) % 4
        return [(SZERO, SONE), (SONE, SZERO), (SZERO, -SONE), (-SONE, SZERO)][k]
    return _trig_atom(PI() * co)


def _trig_atom(x):
    e = eng()
    memo = e.memo.setdefault("trigatom", {})
    lead = x.num.d[max(x.num.d)]
    sg = 1
    if lead < 0:
        x, sg = -x, -1
    k = x.key()
    if k not in memo:
        memo[k] = _mk_trig(None, "b%d" % len(memo), x)
    s, c = memo[k]
    return (s if sg > 0 else -s), c


def sin(x):
    return sincos(x)[0]


def cos(x):
    return sincos(x)[1]


def tan(x):
    s, c = sincos(x)
    e = eng()
    tr, e.track_defined = e.track_defined, False   # tan is finite for every float
    try:
        return s / c
    finally:
        e.track_defined = tr


def _angle_atom(kind, key, s, c, diff, **kw):
    e = eng()
    memo = e.memo.setdefault("angles", {})
    k = (kind,) + key
    if k in memo:
        return memo[k]
    i = e.gen(f"{kind}{len(memo)}", kind="angle", sin=s, cos=c, diff=diff, fn=kind, **kw)
    memo[k] = var(i)
    return memo[k]


def arctan2(y, x):
    y, x = lift(y), lift(x)
    if y.is_const() and y.const() == 0:      # exactly on the axis: 0 or pi, as in IEEE 754
        return SZERO if bool(x >= 0) else PI()
    h = sqrt(x * x + y * y)
    need(h != 0, "arctan2(0, 0)")
    tr, eng().track_defined = eng().track_defined, False
    try:
        s, c = y / h, x / h
    finally:
        eng().track_defined = tr
    # canonical key by direction
    return _angle_atom("atan2", (s.key(), c.key()), s, c,
                       lambda D: c * D(s) - s * D(c), range="azimuth")


def arccos(u):
    u = lift(u)
    need(u <= 1, "arccos argument > 1")
    need(u >= -1, "arccos argument < -1")
    s = sqrt(1 - u * u)
    return _angle_atom("acos", (u.key(),), s, u, lambda D: -(D(u) / s), range="polar")


def arcsin(u):
    u = lift(u)
    need(u <= 1, "arcsin argument > 1")
    need(u >= -1, "arcsin argument < -1")
    c = sqrt(1 - u * u)
    return _angle_atom("asin", (u.key(),), u, c, lambda D: D(u) / c)


def arctan(u):
    u = lift(u)
    h = sqrt(1 + u * u)
    return _angle_atom("atan", (u.key(),), u / h, 1 / h, lambda D: D(u) / (1 + u * u))


def hypot(a, b):
    a, b = lift(a), lift(b)
    return sqrt(a * a + b * b)


def square(a):
    a = lift(a)
    return a * a


def reciprocal(a):
    return 1 / lift(a)


# ------------------------------------------------------------------ roots
def _sqrt_q(q):
    q = Fraction(q)
    a, b = isqrt(q.numerator), isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Fraction(a, b)
    return None


def sign_or_fork(p):
    """Sign (+1/-1) of polynomial p on this path; forks when undetermined.
    p == 0 is folded into +1."""
    if p.is_const():
        return 1 if p.const_value() >= 0 else -1
    s = known_sign(p)
    if s:
        return s
    ex = None
    return 1 if decide(Not(Atom(p, "<"))) else -1


def absolute(x):
    x = lift(x)
    if x.is_const():
        return lift(abs(x.const()))
    return x if decide(Not(cmp0(x, "<"))) else -x


fabs = absolute


def sign(x):
    x = lift(x)
    if decide(cmp0(x, "==")):
        return SZERO
    return SONE if decide(cmp0(x, ">")) else -SONE


def sqrt(x):
    x = lift(x)
    e = eng()
    if x.is_const():
        v = Fraction(x.const())
        if v < 0:
            raise Concretised("sqrt of a negative constant")
        q = _sqrt_q(v)
        if q is not None:
            return lift(P._norm(q))
    memo = e.memo.setdefault("sqrt", {})
    key = (x.key(), tuple(e.pc))
    need(cmp0(x, ">="), "sqrt of a negative number")
    if key in memo:
        return memo[key]
    pos = e.pos
    r = _sqrt(x)
    if e.pos == pos:      # no branch decided: the replay of a path must meet it again
        memo[key] = r
    return r


def _sqrt(x):
    from .real import split_factor
    k, mono, prim = x.num.primitive()
    k = Fraction(k)
    out = SONE                     # factor outside the root
    rad = P.ONE                    # polynomial inside
    # constant
    q = _sqrt_q(abs(k))
    if q is not None:
        out = out * P._norm(q)
        sgn = 1 if k > 0 else -1
        if sgn < 0:
            rad = rad.scale(-1)
    else:
        # k = n/d -> n*d / d^2
        out = out * Fraction(1, k.denominator)
        n = k.numerator * k.denominator
        # pull square part
        f = 2
        a = abs(n)
        while f * f <= a and f < 2000:
            while a % (f * f) == 0:
                a //= f * f
                out = out * f
            f += 1
        rad = rad.scale(a if n > 0 else -a)
    factors = [(Poly.var(i), ee) for i, ee in _exps(mono)]
    if not prim.is_const():
        root = prim.sqrt()
        if root is not None:
            factors.append((root, 2))
        else:
            ok = False
            # try known factors
            for f, ee in split_known(prim):
                factors.append((f, ee))
    else:
        rad = rad.scale(prim.const_value())
    for f, ee in factors:
        h, odd = divmod(ee, 2)
        if h:
            s = SymReal(f).ipow(h)
            if h & 1 and sign_or_fork(f) < 0:
                s = -s
            out = out * s
        if odd:
            rad = rad * f
    for f, ee in x.den:
        h, odd = divmod(ee, 2)
        if h:
            s = SymReal(f).ipow(h)
            if h & 1 and sign_or_fork(f) < 0:
                s = -s
            out = out / s
        if odd:
            s = SymReal(f)
            if sign_or_fork(f) < 0:
                s = -s
            out = out / s
            rad = rad * f
    if rad.is_const():
        v = rad.const_value()
        q = _sqrt_q(v) if v >= 0 else None
        if q is not None:
            return out * P._norm(q)
    k2, m2, p2 = rad.primitive()
    if m2 == 0 and not p2.is_const():
        rt = rad.sqrt()
        if rt is not None:
            s = SymReal(rt)
            if sign_or_fork(rt) < 0:
                s = -s
            return out * s
    return out * _root_gen(rad, 2)


def split_known(prim):
    """Split off squares of known denominator factors from prim."""
    e = eng()
    out = []
    p = prim
    for f in list(e.factors):
        n = 0
        while len(f.d) > 1 and len(f) <= len(p) and set(f.gens()) <= set(p.gens()):
            q = p.divexact(f)
            if q is None:
                break
            _, mono, q2 = q.primitive()
            if mono or not (q2 == q):
                break
            p = q
            n += 1
        if n:
            out.append((f, n))
    if not p.is_const():
        rt = p.sqrt()
        out.append((rt, 2) if rt is not None else (p, 1))
    return out


def _root_gen(rad, n):
    """Generator y >= 0 with y**n == rad (polynomial)."""
    e = eng()
    memo = e.memo.setdefault("root", {})
    k = (rad, n)
    if k in memo:
        return memo[k]
    i = e.gen(f"root{len(memo)}", kind="root", rad=rad, n=n)
    P.CTX.set_rule(i, n, rad)
    y = var(i)
    R = SymReal(rad)
    e.info[i]["constraints"] = [Not(Atom(Poly.var(i), "<")),
                                Atom(_raw_pow(i, n) - rad, "==")]
    e.info[i]["diff"] = lambda D: D(R) / (n * y.ipow(n - 1))
    memo[k] = y
    return y


def _raw_pow(i, n):
    return Poly({n << (i * W): 1})


def cbrt(x):
    return power(x, Fraction(1, 3))


# ------------------------------------------------------------------ powers
def power(x, n):
    if isinstance(n, np.ndarray):
        return NotImplemented
    x = lift(x)
    if isinstance(n, SymReal):
        if n.is_const():
            n = n.const()
        else:
            return _pow_sym(x, n)
    if not is_num(n):
        return NotImplemented
    q = Fraction(rationalise(n))
    if q.denominator == 1:
        return x.ipow(int(q))
    if q.denominator == 2:
        return x.ipow((q.numerator - 1) // 2) * sqrt(x)
    if q.denominator <= 12:
        need(cmp0(x, ">="), "fractional power of a negative number")
        d = q.denominator
        N = x.num
        if x.den:
            y = SONE / lift(1)
            # x = N/D -> (N*D^(d-1))^(1/d) / D   for D > 0
            rad = N
            for f, e in x.den:
                if sign_or_fork(f) < 0:
                    raise Concretised("root of a ratio with negative denominator")
                y = y / SymReal(f).ipow(e)
                rad = rad * (f ** (e * (d - 1)))
            y = y * _root_gen(rad, d)
        else:
            y = _root_gen(N, d)
        return y.ipow(q.numerator)
    return _pow_sym(x, lift(P._norm(q)))


def _pow_sym(x, n):
    """x ** n for a symbolic exponent, x > 0: atom with the laws
    x**(n+k) = x**n * x**k (k integer) and positivity."""
    e = eng()
    need(cmp0(x, ">"), "real power of a non-positive base")
    c = n.num.d.get(0, 0) if not n.den else 0
    k = int(math.floor(Fraction(c)))
    base = n - k
    if base.is_const() and base.const() == 0:
        return x.ipow(k)
    lead = base.num.d[max(base.num.d)]
    memo = e.memo.setdefault("pow", {})
    inv = False
    if lead < 0:
        base, inv = -base, True
        c2 = base.num.d.get(0, 0) if not base.den else 0
    key = (x.key(), base.key())
    if key not in memo:
        i = e.gen(f"pow{len(memo)}", kind="pow", base=x, exponent=base)
        y = var(i)
        e.info[i]["constraints"] = [y > 0]
        b = base

        def dd(D):
            r = b * y / x * D(x)
            db = D(b)
            if db.num.d:
                r = r + y * log(x) * db
            return r
        e.info[i]["diff"] = dd
        memo[key] = y
    y = memo[key]
    if inv:
        y = 1 / y
    return y * x.ipow(k)


def rpower(b, x):
    if isinstance(b, SymReal):
        return power(b, x)
    b = float(b) if not isinstance(b, Fraction) else b
    if abs(float(b) - math.e) < 1e-12:
        return exp(x)
    return _pow_sym(lift(b), x)


def exp(x):
    x = lift(x)
    e = eng()
    if x.is_const() and x.const() == 0:
        return SONE
    # exp(sum of k/q m_i) = product of exp(m_i/q)**k
    d = x.num.d
    if len(d) <= 8 and (len(d) > 1 or next(iter(d.values())) not in (1, -1)):
        r = None
        for m, c in d.items():
            c = Fraction(c)
            n = c.numerator
            if abs(n) > 12 or m == 0:
                n = 1 if c > 0 else -1
            t = _exp1(simp(Poly({m: c / n}), x.den)).ipow(n)
            r = t if r is None else r * t
        return r
    return _exp1(x)


def _exp1(x):
    e = eng()
    memo = e.memo.setdefault("exp", {})
    lead = x.num.d[max(x.num.d)]
    inv = lead < 0
    if inv:
        x = -x
    k = x.key()
    if k not in memo:
        i = e.gen(f"exp{len(memo)}", kind="exp", arg=x)
        y = var(i)
        e.info[i]["constraints"] = [y > 0]
        if cmp0(x, ">=") is TRUE or known_sign(x.num) * _densign(x) > 0:
            e.info[i]["constraints"].append(y > 1)
        a = x
        e.info[i]["diff"] = lambda D: y * D(a)
        memo[k] = y
    y = memo[k]
    return 1 / y if inv else y


def _densign(x):
    s = 1
    for f, ee in x.den:
        if ee & 1:
            s *= known_sign(f)
    return s


def log(x):
    x = lift(x)
    e = eng()
    need(cmp0(x, ">"), "log of a non-positive number")
    if x.is_const() and x.const() == 1:
        return SZERO
    # log(exp(a)) = a
    if not x.den and len(x.num.d) == 1:
        (m, c), = x.num.d.items()
        ex = _exps(m)
        if c == 1 and len(ex) == 1 and ex[0][1] == 1 and e.info[ex[0][0]].get("kind") == "exp":
            return e.info[ex[0][0]]["arg"]
    memo = e.memo.setdefault("log", {})
    k = x.key()
    if k not in memo:
        i = e.gen(f"log{len(memo)}", kind="log", arg=x)
        a = x
        e.info[i]["diff"] = lambda D: D(a) / a
        memo[k] = var(i)
    return memo[k]


def sinh(x):
    y = exp(x)
    return (y - 1 / y) / 2


def cosh(x):
    y = exp(x)
    return (y + 1 / y) / 2


def tanh(x):
    y = exp(2 * lift(x))
    return (y - 1) / (y + 1)


def log10(x):
    raise Concretised("log10")


log2 = log10


def deg2rad(x):
    return lift(x) * PI() / 180


def rad2deg(x):
    return lift(x) * 180 / PI()


def isfinite(x):
    return True


def isnan(x):
    return False


isinf = isnan


def maximum(a, b):
    a, b = lift(a), lift(b)
    return a if decide(tb(compare(a, b, ">="))) else b


def minimum(a, b):
    a, b = lift(a), lift(b)
    return a if decide(tb(compare(a, b, "<="))) else b


def tb(x):
    return x if isinstance(x, Bool) else Const(x)


def integer_near(x, inside, what):
    """The integer n with inside(x, n), by forking over the few smallest (over
    many when a point is followed); anything further out is not explored."""
    far = 3 if eng().concolic is None else 400
    for k in range(2 * far + 1):
        n = (k + 1) // 2 * (1 if k % 2 else -1)
        if all(decide(tb(b)) for b in inside(x, n)):
            return lift(n)
    raise Concretised(f"too many values of {what} of a symbolic real")


def floor(x):
    x = lift(x)
    if x.is_const():
        return lift(math.floor(x.const()))
    return integer_near(x, lambda x, n: (compare(x, n, ">="), compare(x, n + 1, "<")), "floor")


def ceil(x):
    return -floor(-lift(x))


def rint(x):
    x = lift(x)
    if x.is_const():
        return lift(round(Fraction(x.const())))
    h = Fraction(1, 2)

    def inside(x, n):
        e = n % 2 == 0  # ties go to the even neighbour
        return compare(x, n - h, ">=" if e else ">"), compare(x, n + h, "<=" if e else "<")
    return integer_near(x, inside, "rounding")


def trunc(x):
    x = lift(x)
    return floor(x) if decide(tb(compare(x, 0, ">="))) else ceil(x)


def floor_divide(a, b):
    return floor(lift(a) / lift(b))


def remainder(a, b):
    a, b = lift(a), lift(b)
    return a - b * floor(a / b)


def fmod(a, b):
    a, b = lift(a), lift(b)
    return a - b * trunc(a / b)

# ------------------------------------------------------------------ ufuncs
UNARY = {"sin": sin, "cos": cos, "tan": tan, "sqrt": sqrt, "exp": exp, "log": log,
         "arctan": arctan, "arccos": arccos, "arcsin": arcsin, "square": square,
         "absolute": absolute, "fabs": absolute, "negative": lambda x: -lift(x),
         "positive": lambda x: lift(x), "sinh": sinh, "cosh": cosh, "tanh": tanh,
         "sign": sign, "reciprocal": reciprocal, "cbrt": cbrt, "conjugate": lambda x: x,
         "floor": floor, "ceil": ceil, "rint": rint, "trunc": trunc,
         "deg2rad": deg2rad, "radians": deg2rad, "rad2deg": rad2deg, "degrees": rad2deg,
         "isfinite": isfinite, "isnan": isnan, "isinf": isinf}
BINARY = {"add": lambda a, b: lift(a) + b, "subtract": lambda a, b: lift(a) - b,
          "multiply": lambda a, b: lift(a) * b, "divide": lambda a, b: lift(a) / b,
          "true_divide": lambda a, b: lift(a) / b, "power": lambda a, b: rpower(a, b) if not isinstance(a, SymReal) else power(a, b),
          "float_power": lambda a, b: rpower(a, b) if not isinstance(a, SymReal) else power(a, b),
          "arctan2": arctan2, "hypot": hypot, "maximum": maximum, "minimum": minimum,
          "remainder": remainder, "mod": remainder, "fmod": fmod, "floor_divide": floor_divide,
          "equal": lambda a, b: compare(a, b, "=="), "not_equal": lambda a, b: compare(a, b, "!="),
          "less": lambda a, b: compare(a, b, "<"), "less_equal": lambda a, b: compare(a, b, "<="),
          "greater": lambda a, b: compare(a, b, ">"), "greater_equal": lambda a, b: compare(a, b, ">=")}


def _plain_num(x):
    return is_num(x)


def apply1(name, x):
    """Scalar application with concrete numbers left to numpy when exact
    results are not required."""
    if isinstance(x, SymReal):
        return UNARY[name](x)
    if hasattr(x, name):
        return getattr(x, name)()
    return getattr(np, name)(x)


def apply2(name, a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        if (isinstance(a, SymReal) or is_num(a)) and (isinstance(b, SymReal) or is_num(b)):
            return BINARY[name](a, b)
        import operator
        from .quantity import concrete_to_sym
        a, b = concrete_to_sym(a), concrete_to_sym(b)
        op = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
              "divide": operator.truediv, "true_divide": operator.truediv, "power": operator.pow,
              "equal": operator.eq, "not_equal": operator.ne, "less": operator.lt,
              "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge}[name]
        return op(a, b)
    return getattr(np, name)(a, b)


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    if method != "__call__":
        return NotImplemented
    kw.pop("dtype", None)
    out = kw.pop("out", None)
    if any(isinstance(x, np.ndarray) and x.ndim > 0 for x in inputs):
        arrs = []
        for x in inputs:
            if isinstance(x, np.ndarray):
                arrs.append(x.astype(object) if x.dtype != object else x)
            else:
                a = np.empty((), dtype=object)
                a[()] = x
                arrs.append(a)
        arrs = np.broadcast_arrays(*arrs)
        shp = arrs[0].shape
        r = np.empty(shp, dtype=object)
        for idx in np.ndindex(*shp):
            els = [a[idx] for a in arrs]
            r[idx] = apply1(name, els[0]) if len(els) == 1 else apply2(name, *els)
        from .nproxy import SymArray
        r = r.view(SymArray)
        if out is not None:
            out[0][...] = r
            return out[0]
        return r
    ins = [x.item() if isinstance(x, np.ndarray) else x for x in inputs]
    if name in UNARY and len(ins) == 1:
        return apply1(name, ins[0])
    if name in BINARY and len(ins) == 2:
        return apply2(name, *ins)
    raise Concretised(f"ufunc {name} on a symbolic real")
