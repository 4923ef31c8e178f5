"""Duck-typed astropy Quantity with a symbolic value."""
from fractions import Fraction

import numpy as np
from astropy import units as u

from . import funcs as F
from .real import SymReal, Bool, lift, is_num, rationalise, Concretised, compare


def scale_between(a, b):
    """Exact rational meant by the conversion factor a -> b."""
    s = a.to(b)
    if isinstance(s, complex):
        s = s.real
    s = float(s)
    if s and (_has_rad(a) or _has_rad(b)):
        import math
        for k, inv in ((s / math.pi, False), (s * math.pi, True)):
            for f in (Fraction(k).limit_denominator(10 ** 5), 1 / (Fraction(1 / k).limit_denominator(10 ** 5) or 1)):
                if f and abs(float(f) - k) <= 8e-16 * abs(k):
                    return f / F.PI() if inv else F.PI() * f
    return conv(s)


def _has_rad(x):
    return any(b.is_equivalent(u.rad) for b in x.bases)


def conv(s):
    s = float(s)
    if s and not 1e-12 < abs(s) < 1e12:
        for inv in (False, True):
            f = Fraction("%.11e" % (1 / s if inv else s))
            f = 1 / f if inv else f
            if abs(float(f) - s) <= 4e-16 * abs(s):
                return f
    f = Fraction(s).limit_denominator(10 ** 6)
    if f and abs(float(f) - s) <= 4e-16 * abs(s):
        return f
    if s:
        g = Fraction(1 / s).limit_denominator(10 ** 6)
        if g and abs(float(1 / g) - s) <= 4e-16 * abs(s):
            return 1 / g
    return Fraction(repr(s))


def concrete_to_sym(q):
    if type(q) is not SymQuantity and isinstance(q, u.Quantity) and q.ndim == 0:
        return SymQuantity(lift(q.value.item() if hasattr(q.value, "item") else q.value), q.unit)
    return q


class SymQuantity:
    __array_priority__ = 100000

    def __init__(self, value, unit=u.one):
        self.value = value
        self.unit = u.Unit(unit)

    @property
    def __class__(self):
        return u.Quantity

    # conversions
    def to(self, unit, equivalencies=None, copy=True):
        if type(unit) is SymQuantity or isinstance(unit, u.Quantity):
            # a quantity used as a unit, e.g. q.to(3 * u.m)
            r = SymQuantity(self.to(unit.unit).value / unit.value, unit.unit)
            r.per = unit.value * self.__dict__.get("per", 1)
            return r
        if "per" in self.__dict__:
            return SymQuantity(self.value * self.per, self.unit).to(unit)
        unit = u.Unit(unit)
        if unit == self.unit:
            return SymQuantity(self.value, unit)
        if not self.unit.is_equivalent(unit):
            raise u.UnitConversionError(f"{self.unit} and {unit} are not convertible")
        k = scale_between(self.unit, unit)
        return SymQuantity(self.value * k, unit)

    def to_value(self, unit=None, equivalencies=None):
        if unit is None:
            return self.value
        return self.to(unit).value

    @property
    def si(self):
        si = self.unit.si
        base = u.Unit(si / si.scale) if si.scale != 1 else si
        return self.to(base)

    @property
    def cgs(self):
        c = self.unit.cgs
        return self.to(u.Unit(c / c.scale))

    def decompose(self, bases=()):
        d = self.unit.decompose()
        return SymQuantity(self.value * conv(d.scale), u.Unit(d / d.scale))

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        try:
            un = u.Unit(n)
        except ValueError:
            raise AttributeError(n)
        return self.to(un)

    @property
    def isscalar(self):
        return True

    # arithmetic
    def _co(self, o):
        if isinstance(o, SymQuantity) or type(o) is SymQuantity:
            return o.value, o.unit
        if isinstance(o, u.UnitBase):
            return 1, o
        if isinstance(o, u.Quantity):
            return o.value, o.unit
        return o, u.one

    def __mul__(self, o):
        v, un = self._co(o)
        return SymQuantity(self.value * v, self.unit * un)

    def __rmul__(self, o):
        v, un = self._co(o)
        return SymQuantity(v * self.value, un * self.unit)

    def __truediv__(self, o):
        v, un = self._co(o)
        return SymQuantity(self.value / v, self.unit / un)

    def __rtruediv__(self, o):
        v, un = self._co(o)
        return SymQuantity(v / self.value, un / self.unit)

    def _same(self, o):
        v, un = self._co(o)
        if un == self.unit:
            return v
        if un == u.one and is_num(v) and v == 0:
            return v
        return SymQuantity(v, un).to(self.unit).value

    def __add__(self, o):
        return SymQuantity(self.value + self._same(o), self.unit)

    __radd__ = __add__

    def __sub__(self, o):
        return SymQuantity(self.value - self._same(o), self.unit)

    def __rsub__(self, o):
        return SymQuantity(self._same(o) - self.value, self.unit)

    def __mod__(self, o):
        return SymQuantity(lift(self.value) % self._same(o), self.unit)

    def __rmod__(self, o):
        return SymQuantity(*self._co(o)) % self

    def __floordiv__(self, o):
        return SymQuantity(lift(self.value) // self._same(o), u.one)

    def __neg__(self):
        return SymQuantity(-self.value, self.unit)

    def __pow__(self, n):
        return SymQuantity(lift(self.value) ** n, self.unit ** n)

    def __abs__(self):
        return SymQuantity(abs(self.value), self.unit)

    def _cmp(self, o, op):
        return compare(lift(self.value), self._same(o), op)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        try:
            return self._cmp(o, "==")
        except (u.UnitConversionError, TypeError):
            return False

    def __ne__(self, o):
        try:
            return self._cmp(o, "!=")
        except (u.UnitConversionError, TypeError):
            return True

    __hash__ = object.__hash__

    def __float__(self):
        return float(self.to(u.one).value)

    def __repr__(self):
        return f"<SymQuantity {self.value} {self.unit}>"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        n = ufunc.__name__
        if method != "__call__":
            return NotImplemented
        if n in ("sin", "cos", "tan"):
            return SymQuantity(getattr(F, n)(lift(self.to(u.rad).value)))
        if n == "sqrt":
            return SymQuantity(F.sqrt(self.value), self.unit ** 0.5)
        if n == "square":
            return self * self
        if n in ("exp", "log"):
            return SymQuantity(getattr(F, n)(lift(self.to(u.one).value)))
        if n in ("arcsin", "arccos", "arctan"):
            return SymQuantity(getattr(F, n)(lift(self.to(u.one).value)), u.rad)
        if n in ("multiply", "divide", "true_divide", "add", "subtract", "power", "remainder", "mod", "floor_divide"):
            a, b = inputs
            a = a if type(a) is SymQuantity else SymQuantity(*self._co(a))
            import operator
            op = {"multiply": operator.mul, "divide": operator.truediv, "true_divide": operator.truediv,
                  "add": operator.add, "subtract": operator.sub, "power": operator.pow,
                  "remainder": operator.mod, "mod": operator.mod, "floor_divide": operator.floordiv}[n]
            return op(a, b)
        if n == "arctan2":
            a, b = inputs
            return SymQuantity(F.arctan2(lift(a.value), lift(SymQuantity(*self._co(b)).to(a.unit).value)), u.rad)
        if n in ("absolute", "negative"):
            return abs(self) if n == "absolute" else -self
        if n in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
            a, b = inputs
            op = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}[n]
            a = a if type(a) is SymQuantity else SymQuantity(*self._co(a))
            return a._cmp(b, op)
        if n in ("maximum", "minimum", "fmax", "fmin", "hypot"):
            a, b = inputs
            a = a if type(a) is SymQuantity else SymQuantity(*self._co(a))
            return SymQuantity(getattr(F, {"fmax": "maximum", "fmin": "minimum"}.get(n, n))(lift(a.value), lift(a._same(b))), a.unit)
        if n == "cbrt":
            return SymQuantity(F.cbrt(lift(self.value)), self.unit ** Fraction(1, 3))
        if n in ("deg2rad", "radians"):
            return self.to(u.rad)
        if n in ("rad2deg", "degrees"):
            return self.to(u.deg)
        if n in ("isfinite", "isnan", "isinf"):
            return n == "isfinite"
        if n == "sign":
            return F.sign(lift(self.value))
        raise Concretised(f"ufunc {n} on a symbolic quantity")

    for _n in ("sin", "cos", "tan", "sqrt", "exp", "log"):
        def _f(self, _n=_n):
            return self.__array_ufunc__(getattr(np, _n), "__call__", self)
        locals()[_n] = _f
    del _f, _n


def _sr_unit_mul(fn):
    def g(self, o):
        if isinstance(o, u.UnitBase):
            return SymQuantity(self, o) if fn.__name__.endswith("mul__") else SymQuantity(self, u.one / o)
        if type(o) is SymQuantity:
            return NotImplemented
        if isinstance(o, u.Quantity):
            return NotImplemented if False else getattr(SymQuantity(self), fn.__name__)(o)
        return fn(self, o)
    g.__name__ = fn.__name__
    return g


# SymReal * unit  ->  SymQuantity
for _n in ("__mul__", "__rmul__", "__truediv__"):
    setattr(SymReal, _n, _sr_unit_mul(getattr(SymReal, _n)))


_to = u.Quantity.to


def _quantity_to(self, unit, *a, **k):
    # a plain quantity converted to a unit of symbolic size
    if type(unit) is SymQuantity:
        return SymQuantity(lift(self.value.item() if hasattr(self.value, "item") else self.value), self.unit).to(unit)
    return _to(self, unit, *a, **k)


u.Quantity.to = _quantity_to


_qnew = u.Quantity.__new__


def _quantity_new(cls, value, unit=None, *a, **k):
    # Quantity(symbolic value, unit)
    if isinstance(value, SymReal):
        return SymQuantity(value, u.one if unit is None else unit)
    if type(value) is SymQuantity:
        return value if unit is None else value.to(unit)
    return _qnew(cls, value, unit, *a, **k)


u.Quantity.__new__ = _quantity_new
