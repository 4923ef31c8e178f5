"""Symbolic reals: rational functions with a factored denominator, over
generators (inputs, sines/cosines, square roots, exponentials, ...)."""
import math
from fractions import Fraction

import numpy as np

from . import poly as P
from .poly import Poly, ZERO, ONE, W, MASK, _exps


class Concretised(BaseException):
    """The code asked for a concrete float of a symbolic value."""


class Engine:
    """All state of one symbolic run."""

    def __init__(self):
        P.reset()
        P._exps_cache.clear()
        self.info = {}        # gen index -> dict(kind=..., ...)
        self.memo = {}        # memo tables for atoms
        self.assumptions = []  # list of Bool (global)
        self.pc = []          # path condition
        self.decisions = []
        self.pos = 0
        self.obligations = []   # definedness: (Bool, description)
        self.oblig_seen = set()
        self.factors = {}     # prim poly -> True (known denominator factors)
        self.sign_cache = {}
        self.concolic = None  # callable(Bool) -> bool: follow one concrete point
        self.solver = None    # callable(list[Bool]) -> 'sat'|'unsat'|'unknown'
        self.forks = 0
        self.notes = []
        self.track_defined = True

    # generators -----------------------------------------------------
    def gen(self, name, **info):
        n = name
        k = 1
        while n in P.CTX.names:
            k += 1
            n = f"{name}_{k}"
        i = P.CTX.gen(n)
        self.info[i] = dict(info)
        return i


ENG = None


def new_engine():
    global ENG
    ENG = Engine()
    return ENG


def eng():
    return ENG


# ---------------------------------------------------------------- numbers
def rationalise(x):
    """Exact rational meant by a Python/numpy number in source code."""
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return P._norm(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Concretised(f"non-finite constant {x}")
        if x == int(x) and abs(x) < 1e15:
            return int(x)
        if abs(x) >= 1e15:
            return P._norm(Fraction(repr(x)))
        f = Fraction(x)
        g = f.limit_denominator(5040)
        if g != 0 and abs(float(g) - x) <= 2.3e-16 * abs(x):
            return P._norm(g)
        return P._norm(Fraction(repr(x)))
    raise TypeError(type(x))


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_))


class SymReal:
    __slots__ = ("num", "den", "_k")
    __array_priority__ = 1000

    def __init__(self, num, den=()):
        self.num = num
        self.den = den      # tuple of (prim Poly, exp), sorted by key
        self._k = None

    # ---- identity
    def key(self):
        if self._k is None:
            self._k = (self.num, frozenset(self.den))
        return self._k

    def same(self, o):
        return self.num == o.num and dict(self.den) == dict(o.den)

    def is_const(self):
        return not self.den and self.num.is_const()

    def const(self):
        return self.num.const_value()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = self.num.to_str()
        if self.den:
            s = f"({s})/(" + ")*(".join(f.to_str() + (f")^({e}" if e != 1 else "") for f, e in self.den) + ")"
        return f"<{s[:300]}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # ---- conversion
    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Concretised("float() of a symbolic real")

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Concretised("int() of a symbolic real")

    def __index__(self):
        raise Concretised("index from a symbolic real")

    def __bool__(self):
        return bool(self != 0)

    # ---- arithmetic
    def __neg__(self):
        return SymReal(-self.num, self.den)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not o.num.d:
            return self
        if not self.num.d:
            return o
        if self.den == o.den:
            return simp(self.num + o.num, self.den)
        da, db = dict(self.den), dict(o.den)
        na, nb = self.num, o.num
        lcm = dict(da)
        for f, e in db.items():
            if lcm.get(f, 0) < e:
                lcm[f] = e
        for f, e in lcm.items():
            k = e - da.get(f, 0)
            if k:
                na = na * f ** k
            k = e - db.get(f, 0)
            if k:
                nb = nb * f ** k
        return simp(na + nb, _dt(lcm))

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not self.num.d or not o.num.d:
            return SZERO
        if len(self.num.d) * len(o.num.d) > 20000 and getattr(eng(), "abbrev", None) is not None:
            # name the operands, which keeps the product small
            from .nproxy import abbreviate
            return abbreviate(self) * abbreviate(o)
        if not self.den and not o.den:
            return SymReal(self.num * o.num)
        na, nb = self.num, o.num
        da, db = dict(self.den), dict(o.den)
        na, db = _cancel(na, db)
        nb, da = _cancel(nb, da)
        for f, e in db.items():
            da[f] = da.get(f, 0) + e
        return simp(na * nb, _dt(da), tried=False)

    __rmul__ = __mul__

    def recip(self):
        if not self.num.d:
            raise ZeroDivisionError("symbolic division by a structural zero")
        if self.num.is_const():
            n = Poly.const(Fraction(1) / Fraction(self.num.const_value()))
            f = {}
        else:
            k, mono, prim = self.num.primitive()
            f = {}
            for i, e in _exps(mono):
                g = Poly.var(i)
                f[g] = f.get(g, 0) + e
            if not prim.is_const():
                for g, e in split_factor(prim):
                    f[g] = f.get(g, 0) + e
            else:
                k = Fraction(k) * Fraction(prim.const_value())
            # split_factor may have dropped constants: primitive parts are
            # normalised, so products of primitives are primitive (Gauss)
            n = Poly.const(Fraction(1) / Fraction(k))
            for g in f:
                need_nonzero(g)
        for g, e in self.den:
            n = n * g ** e
        return simp(n, _dt(f))

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self * o.recip()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o * self.recip()

    def __floordiv__(self, o):
        from . import funcs
        return NotImplemented if lift(o) is NotImplemented else funcs.floor_divide(self, o)

    def __rfloordiv__(self, o):
        from . import funcs
        return funcs.floor_divide(o, self)

    def __mod__(self, o):
        from . import funcs
        return NotImplemented if lift(o) is NotImplemented else funcs.remainder(self, o)

    def __rmod__(self, o):
        from . import funcs
        return funcs.remainder(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __floor__(self):
        from . import funcs
        return funcs.floor(self)

    def __round__(self, n=None):
        from . import funcs
        if n is None:
            return funcs.rint(self)
        return funcs.rint(self * 10 ** n) / 10 ** n

    def __pow__(self, n):
        from . import funcs
        return funcs.power(self, n)

    def __rpow__(self, b):
        from . import funcs
        return funcs.rpower(b, self)

    def ipow(self, n):
        if n == 0:
            return SONE
        if n < 0:
            return self.recip().ipow(-n)
        r = SONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __abs__(self):
        from . import funcs
        return funcs.absolute(self)

    # ---- comparisons
    def __eq__(self, o):
        return compare(self, o, "==")

    def __ne__(self, o):
        return compare(self, o, "!=")

    def __lt__(self, o):
        return compare(self, o, "<")

    def __le__(self, o):
        return compare(self, o, "<=")

    def __gt__(self, o):
        return compare(self, o, ">")

    def __ge__(self, o):
        return compare(self, o, ">=")

    # ---- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import funcs
        return funcs.ufunc(ufunc, method, inputs, kw)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SZERO

    def copy(self):
        return self

    def item(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mk(name):
    def m(self, *a):
        from . import funcs
        return getattr(funcs, name)(self, *a)
    m.__name__ = name
    return m


for _n in ("sin cos tan sqrt exp log arctan2 arctan arccos arcsin hypot square sinh cosh tanh "
           "sign fabs log10 log2 deg2rad rad2deg isfinite isnan isinf power maximum minimum rint floor ceil cbrt reciprocal").split():
    setattr(SymReal, _n, _mk(_n))


def _dt(d):
    return tuple(sorted(((f, e) for f, e in d.items() if e), key=lambda t: (len(t[0].d), t[0].key())))


def split_factor(prim):
    """Factor a primitive polynomial into already-known denominator factors and
    perfect powers (cheap, incomplete)."""
    e = eng()
    out = {}
    p = prim
    # a perfect square?
    mult = 1
    while True:
        q = p.sqrt() if len(p) > 1 else None
        if q is None:
            break
        _, _, q = q.primitive()
        p = q
        mult *= 2
    for f in sorted(e.factors, key=lambda f: -len(f)):
        if f == p:
            break
        while len(f) <= len(p) and len(f) > 1 and set(f.gens()) <= set(p.gens()):
            q = p.divexact(f)
            if q is None:
                break
            out[f] = out.get(f, 0) + mult
            _, mono, p = q.primitive()
            for i, ee in _exps(mono):
                g = Poly.var(i)
                out[g] = out.get(g, 0) + ee * mult
    if not p.is_const():
        out[p] = out.get(p, 0) + mult
        e.factors.setdefault(p, True)
    return list(out.items())


def _cancel(num, den):
    """Cancel common factors of num with the den dict (exact division only)."""
    if not den or not num.d:
        return num, den
    den = dict(den)
    if num.is_const():
        return num, den
    for f in list(den):
        while den.get(f):
            if len(f.d) == 1:
                (m, c), = f.d.items()      # single generator
                (i, ee), = _exps(m)
                s = i * W
                if all((k >> s) & MASK for k in num.d):
                    num = Poly({k - (1 << s): v for k, v in num.d.items()})
                else:
                    break
            else:
                if len(num.d) < len(f.d) and len(num.d) < 2:
                    break
                q = num.divexact(f)
                if q is None:
                    break
                num = q
            den[f] -= 1
            if not den[f]:
                del den[f]
    return num, den


def simp(num, den, tried=True):
    if not num.d:
        return SZERO
    if den and tried is not None:
        n2, d2 = _cancel(num, dict(den))
        if n2 is not num:
            return SymReal(n2, _dt(d2))
    return SymReal(num, den)


def lift(o):
    if isinstance(o, SymReal):
        return o
    if is_num(o):
        if isinstance(o, (float, np.floating)) and ENG is not None:
            q = float(o) / math.pi
            if 0.08 < abs(q) < 50:
                f = Fraction(q).limit_denominator(12)
                if abs(float(f) * math.pi - float(o)) < 4e-16 * abs(q) * math.pi:
                    from .funcs import PI
                    return PI() * f
            f2 = float(o) * float(o)
            if 0.01 < f2 < 1000 and abs(float(o) * 5040 - round(float(o) * 5040)) > 1e-9:
                f = Fraction(f2).limit_denominator(12)
                if abs(float(f) - f2) < 6e-16 * f2 and abs(math.sqrt(float(f)) - abs(float(o))) <= 4e-16 * abs(float(o)):
                    from .funcs import sqrt
                    return sqrt(f) if o > 0 else -sqrt(f)
        c = rationalise(o)
        return SymReal(Poly.const(c))
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return NotImplemented


SZERO = SymReal(ZERO)
SONE = SymReal(ONE)


def var(i):
    return SymReal(Poly.var(i))


def need_nonzero(f):
    """Definedness obligation: denominator factor f is nonzero here."""
    e = eng()
    if not e.track_defined:
        return
    k = (f, "!=", tuple(e.pc))
    if k in e.oblig_seen:
        return
    e.oblig_seen.add(k)
    e.obligations.append((Atom(f, "!="), tuple(e.pc), "division by zero"))


def need(cond, what):
    e = eng()
    if not e.track_defined:
        return
    if isinstance(cond, Const):
        if cond.v:
            return
    k = (cond, tuple(e.pc))
    if k in e.oblig_seen:
        return
    e.oblig_seen.add(k)
    e.obligations.append((cond, tuple(e.pc), what))


# ---------------------------------------------------------------- booleans
class Bool:
    """Symbolic truth value; __bool__ forks."""

    def __bool__(self):
        return decide(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    # a truth value used as a number: decided on the path
    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __neg__(self):
        return -int(self)

    def __add__(self, o):
        return int(self) + (int(o) if isinstance(o, Bool) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - (int(o) if isinstance(o, Bool) else o)

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * (int(o) if isinstance(o, Bool) else o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return int(self) / o

    def all(self, *a, **k):
        return self

    any = all

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        n = ufunc.__name__
        if n == "logical_and" or n == "bitwise_and":
            return And(*inputs)
        if n == "logical_or" or n == "bitwise_or":
            return Or(*inputs)
        if n in ("logical_not", "invert"):
            return Not(inputs[0])
        return NotImplemented


class Const(Bool):
    def __init__(self, v):
        self.v = bool(v)

    def __bool__(self):
        return self.v

    def __eq__(self, o):
        return isinstance(o, Const) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return str(self.v)


TRUE, FALSE = Const(True), Const(False)


class Atom(Bool):
    """poly op 0, op in == != < <="""
    __slots__ = ("p", "op")

    def __init__(self, p, op):
        self.p = p
        self.op = op

    def __eq__(self, o):
        return isinstance(o, Atom) and self.op == o.op and self.p == o.p

    def __hash__(self):
        return hash((self.p.key(), self.op))

    def __repr__(self):
        return f"[{self.p.to_str()[:120]} {self.op} 0]"


class NAry(Bool):
    def __init__(self, op, args):
        self.op = op
        self.args = tuple(args)

    def __eq__(self, o):
        return isinstance(o, NAry) and self.op == o.op and self.args == o.args

    def __hash__(self):
        return hash((self.op, self.args))

    def __repr__(self):
        return f"({self.op} " + " ".join(map(repr, self.args)) + ")"


def tobool(x):
    if isinstance(x, Bool):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Const(x)
    if isinstance(x, np.ndarray):
        return And(*[tobool(v) for v in x.ravel()])
    raise TypeError(f"not a truth value: {x!r}")


def And(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if isinstance(x, Const):
            if not x.v:
                return FALSE
            continue
        if isinstance(x, NAry) and x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else NAry("and", out)


def Or(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if isinstance(x, Const):
            if x.v:
                return TRUE
            continue
        if isinstance(x, NAry) and x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else NAry("or", out)


def Not(x):
    x = tobool(x)
    if isinstance(x, Const):
        return Const(not x.v)
    if isinstance(x, Atom):
        if x.op == "==":
            return Atom(x.p, "!=")
        if x.op == "!=":
            return Atom(x.p, "==")
        if x.op == "<":
            return Atom(-x.p, "<=")
        return Atom(-x.p, "<")
    return NAry("or" if x.op == "and" else "and", [Not(a) for a in x.args])


def Implies(a, b):
    return Or(Not(a), b)


def compare(a, b, op):
    a = lift(a)
    b2 = lift(b)
    if b2 is NotImplemented:
        if isinstance(b, np.ndarray):
            return NotImplemented
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    return cmp0(diff(a, b2), op)


def diff(a, b):
    return a + (-b)


def cmp0(d, op):
    """Truth of  d op 0."""
    if op == ">":
        return cmp0(-d, "<")
    if op == ">=":
        return cmp0(-d, "<=")
    n = d.num
    if n.is_const() and (op in ("==", "!=") or not d.den):
        v = n.const_value()
        return Const({"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0}[op])
    if op in ("<", "<="):
        for f, e in d.den:
            if e & 1:
                s = known_sign(f)
                if s:
                    if s < 0:
                        n = -n
                else:
                    n = n * f
        if n.is_const():
            v = n.const_value()
            return Const({"<": v < 0, "<=": v <= 0}[op])
        return Atom(n, op)
    if op == "==":
        return Atom(n.primitive()[2] if False else n, "==")
    return Atom(n, "!=")


def decide(b):
    """Truth of b on the current path, forking when both ways are feasible."""
    e = eng()
    if isinstance(b, Const):
        return b.v
    if e.concolic is not None:
        return e.concolic(b)
    if e.pos < len(e.decisions):
        v = e.decisions[e.pos][0]
        e.pos += 1
        if e.decisions[e.pos - 1][2]:
            e.pc.append(b if v else Not(b))
        return v
    base = list(e.assumptions) + e.pc
    if e.solver is None:
        raise Concretised(f"branch on {b!r} outside explore()")
    st = e.solver(base + [b])
    if st == "unsat":
        e.decisions.append([False, True, False])
        e.pos += 1
        return False
    sf = e.solver(base + [Not(b)])
    if sf == "unsat":
        e.decisions.append([True, True, False])
        e.pos += 1
        return True
    e.forks += 1
    if e.forks > 400:
        raise Concretised("too many forks")
    e.decisions.append([True, False, True])
    e.pos += 1
    e.pc.append(b)
    return True


def known_sign(p):
    """+1/-1 when the sign of polynomial p is certain on this path, 0 when the
    solver cannot tell (or p may vanish)."""
    e = eng()
    if p.is_const():
        c = p.const_value()
        return (c > 0) - (c < 0)
    if e.solver is None:
        return 0
    k = (p, tuple(e.pc), len(e.assumptions))
    v = e.sign_cache.get(k)
    if v is not None:
        return v
    if e.sign_cache.get((p, (), len(e.assumptions))):
        return e.sign_cache[(p, (), len(e.assumptions))]
    base = list(e.assumptions) + e.pc
    s = 0
    # assuming p != 0 is not allowed here: require strict sign
    if e.solver(base + [Atom(p, "<=")]) == "unsat":
        s = 1
    elif e.solver(base + [Atom(-p, "<=")]) == "unsat":
        s = -1
    e.sign_cache[k] = s
    return s


def explore(fn, max_paths=64):
    """Run fn() on every feasible path.  Yields (path condition, outcome) with
    outcome ('ok', value) or ('raise', exception)."""
    e = eng()
    e.decisions = []
    out = []
    while True:
        e.pos = 0
        e.pc = []
        try:
            r = ("ok", fn())
        except Concretised:
            raise
        except P.TooBig:
            raise
        except Exception as ex:      # the code under test raised
            r = ("raise", ex)
        del e.decisions[e.pos:]
        out.append((tuple(e.pc), r))
        if len(out) > max_paths:
            raise Concretised("too many paths")
        while e.decisions and (e.decisions[-1][1]):
            e.decisions.pop()
        if not e.decisions:
            break
        d = e.decisions[-1]
        d[0], d[1] = not d[0], True
    e.pc = []
    return out


# ---------------------------------------------------------------- derivative
def pdiff(x, i, cache=None):
    """d x / d generator i, total (through dependent generators)."""
    x = lift(x)
    if cache is None:
        cache = {}
    dn = _poly_total(x.num, i, cache)
    r = dn
    if x.den:
        full = SymReal(ONE, x.den)
        r = dn * full
        inv = SymReal(x.num, x.den)
        for f, e in x.den:
            df = _poly_total(f, i, cache)
            if df.num.d:
                r = r - inv * df * e * SymReal(ONE, ((f, 1),))
    return r


def _poly_total(p, i, cache):
    r = SZERO
    for g in p.gens():
        dg = gen_diff(g, i, cache)
        if dg.num.d:
            r = r + SymReal(p.partial(g)) * dg
    return r


def gen_diff(g, i, cache):
    if g == i:
        return SONE
    k = (g, i)
    if k in cache:
        return cache[k]
    inf = eng().info[g]
    d = inf.get("diff")
    if d is None:
        r = SZERO
    else:
        r = d(lambda y: pdiff(y, i, cache))
    cache[k] = r
    return r
