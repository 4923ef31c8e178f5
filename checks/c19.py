"""C19: FLRW scale factors."""
from .common import *
from symx import funcs as F
from symx.real import lift, cmp0

FN = ("utils.scalar_factor.scalar_factor", "utils.scalar_factor.scalar_factor_derivative")
UNITS = {"s": 1, "min": 60, "d": 86400, "yr": 31557600, "ms": Fraction(1, 1000)}


def any_time(c):
    return {"t": c.real("t", -3, 3), "k": c.real("k", 0.5, 2)}


def inputs(c):
    return {"t": c.real("t", 0.5, 3, positive=True), "k": c.real("k", 0.5, 2)}


def scen(era, unit, how):
    def scenario(mk, inp):
        from einsteinpy import utils
        from einsteinpy.constant import Cosmo_Const
        from einsteinpy.utils import scalar_factor, scalar_factor_derivative
        s = UNITS[unit]
        t = mk.q(inp["t"] if s == 1 else lift(inp["t"]) / s if mk.symbolic else inp["t"] / float(s), u.Unit(unit))
        kw = {"all": dict(era=era, tuning_param=inp["k"]), "no_k": dict(era=era), "pos": None, "default": {}}[how]
        if kw is None:
            a, d = scalar_factor(t, era, inp["k"]), scalar_factor_derivative(t, era, inp["k"])
        else:
            a, d = scalar_factor(t, **kw), scalar_factor_derivative(t, **kw)
        return {"a": a, "d": d}
    return scenario


def claims(era, how):
    def f(c, out, inp):
        from einsteinpy.constant import Cosmo_Const
        a, d = lift(out["a"]), lift(out["d"])
        t, k = inp["t"], (inp["k"] if how in ("all", "pos") else 1)
        r = [Eq("derivative", d, c.diff(a, t))]
        if era == "md":
            r += [Eq("growth t^(2/3)", a ** 3, k ** 3 * t ** 2), Eq("Friedmann a a'^2", a * d ** 2, 4 * lift(k) ** 3 / 9)]
        elif era == "rd":
            r += [Eq("growth t^(1/2)", a ** 2, k ** 2 * t), Eq("Friedmann (a a')^2", (a * d) ** 2, lift(k) ** 4 / 4)]
        else:
            H = F.sqrt(lift(Cosmo_Const.value) / 3)
            r += [Eq("growth e^(Ht)", a, k * F.exp(H * t)), Eq("Friedmann a'^2 = (Lambda/3) a^2", d ** 2 * 3, lift(Cosmo_Const.value) * a ** 2),
                  Holds("expanding", cmp0(d * a, ">=") if how in ("all", "pos") else cmp0(d, ">"))]
        if era != "ded":
            r.append(Holds("sign of the tuning parameter", cmp0(a * k, ">=")))
        return r
    return f


def case(era, unit="s", how="all"):
    return simple_case(f"{era}_{unit}_{how}", any_time if era == "ded" else inputs, scen(era, unit, how), claims(era, how), functions=FN, points=2,
                       bounds=f"era {era}, every t{'' if era == 'ded' else ' > 0'} (given in {unit}), every tuning parameter, {how} arguments")


BAD = ["", "MD", "matter", "m", "d", "r", "de", "mdrd", None, 0]


def bad_scen(mk, inp):
    from einsteinpy.utils import scalar_factor, scalar_factor_derivative
    t = mk.q(inp["t"], u.s)
    return {f"{f.__name__}({e!r})": mk.attempt(lambda: f(t, e, inp["k"]), ValueError) for f in (scalar_factor, scalar_factor_derivative) for e in BAD}


def bad_claims(c, out, inp):
    return [Fact(k, isinstance(v, ValueError)) for k, v in out.items()]


def unit_scen(mk, inp):
    from einsteinpy.utils import scalar_factor, scalar_factor_derivative
    return {f.__name__: mk.attempt(lambda: f(mk.q(inp["t"], u.m), "md", inp["k"]), u.UnitsError) for f in (scalar_factor, scalar_factor_derivative)}


def unit_claims(c, out, inp):
    return [Fact(k, isinstance(v, u.UnitsError)) for k, v in out.items()]


CASES = [case(e, un, h) for e in ("md", "rd", "ded") for un, h in (("s", "all"), ("d", "pos"), ("yr", "no_k"), ("ms", "all"), ("min", "no_k"))]
CASES += [case("md", "s", "default"), simple_case("unknown_era", inputs, bad_scen, bad_claims, functions=FN, bounds=f"eras {BAD}, every t > 0"),
          simple_case("not_a_time", inputs, unit_scen, unit_claims, functions=FN, bounds="a length instead of a time")]
CASES.insert(0, CONSTANTS)
