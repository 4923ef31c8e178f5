"""C18: dual numbers carry exact derivatives."""
from .common import *
from .c13 import geo_inputs, delta1, geodesic_obj, params_of, KINDS

POWS = (1, 2, 3, 4, 5, -1, -2, -3)
HALF = (0.5, 1.5, -0.5)


def inp(c):
    d = {n: c.real(n) for n in ("x", "dx", "s")}
    d["y"] = c.real("y")
    d["dy"] = c.real("dy")
    c.assume(d["x"] != 0, d["y"] != 0)
    return d


def ops(D, i, np_):
    a, b, s = D(i["x"], i["dx"]), D(i["y"], i["dy"]), i["s"]
    r = {"a+b": a + b, "a-b": a - b, "a*b": a * b, "a/b": a / b, "b/a": b / a,
         "a+s": a + s, "s+a": s + a, "a-s": a - s, "s-a": s - a, "a*s": a * s, "s*a": s * a, "s/a": s / a,
         "-a": -a, "a/2": a / 2, "2/a": 2 / a, "1.0-a": 1.0 - a, "a+1": a + 1, "0.5*a": 0.5 * a,
         "rsub": a.__rsub__(b), "rtruediv": a.__rtruediv__(b), "radd": a.__radd__(b), "rmul": a.__rmul__(b),
         "sin": np_.sin(a), "cos": np_.cos(a), "exp": np_.exp(a), "tan": np_.tan(a),
         "aug": aug(D, a, b),
         "mix": (a * b - 3 * a) / (b * b) + np_.sin(a * b) ** 2 - (2 - a) / b}
    for n in POWS:
        r[f"a**{n}"] = a ** n
    return r


def aug(D, a, b):
    x = D(a.val, a.deriv)
    x += b
    x *= a
    x -= 2.0
    x /= b
    return x


def truth(i):
    x, y, s = i["x"], i["y"], i["s"]
    r = {"a+b": x + y, "a-b": x - y, "a*b": x * y, "a/b": x / y, "b/a": y / x, "a+s": x + s, "s+a": x + s, "a-s": x - s,
         "s-a": s - x, "a*s": x * s, "s*a": x * s, "s/a": s / x, "-a": -x, "a/2": x / 2, "2/a": 2 / x, "1.0-a": 1 - x,
         "a+1": x + 1, "0.5*a": x / 2, "rsub": y - x, "rtruediv": y / x, "radd": x + y, "rmul": x * y,
         "sin": F.sin(x), "cos": F.cos(x), "exp": F.exp(x), "tan": F.tan(x),
         "aug": ((x + y) * x - 2) / y,
         "mix": (x * y - 3 * x) / (y * y) + F.sin(x * y) ** 2 - (2 - x) / y}
    for n in POWS:
        r[f"a**{n}"] = x ** n
    return r


def scen(mk, i):
    from einsteinpy.utils.dual import DualNumber
    import numpy
    r = ops(DualNumber, i, numpy)
    return {k: [v.val, v.deriv] for k, v in r.items()}


def dual_claims(c, out, i, t):
    cl = []
    for k, v in t.items():
        v = R.lift(v)
        dv = c.diff(v, i["x"]) * i["dx"]
        if "dy" in i:
            dv = dv + c.diff(v, i["y"]) * i["dy"]
        cl += [Eq(f"{k}.val", out[k][0], v), Eq(f"{k}.deriv", out[k][1], dv)]
    return cl


def claims(c, out, i):
    return dual_claims(c, out, i, truth(i))


# ---- domain x > 0: log, roots, real exponents
def pos_in(c):
    d = {"x": c.real("x", positive=True), "dx": c.real("dx"), "n": c.real("n")}
    return d


def pos_scen(mk, i):
    from einsteinpy.utils.dual import DualNumber
    import numpy
    a = DualNumber(i["x"], i["dx"])
    r = {"log": numpy.log(a), "a**n": a ** i["n"], "log(a*a)": numpy.log(a * a)}
    for h in HALF:
        r[f"a**{h}"] = a ** h
    return {k: [v.val, v.deriv] for k, v in r.items()}


def pos_claims(c, out, i):
    x = i["x"]
    t = {"log": F.log(x), "a**n": F.power(x, i["n"]), "log(a*a)": F.log(x * x)}
    for h in HALF:
        t[f"a**{h}"] = F.power(x, Fraction(h))
    return dual_claims(c, out, i, t)


# ---- positive powers hold at x = 0 too; equality
def zero_in(c):
    return {"x": c.real("x"), "dx": c.real("dx"), "y": c.real("y"), "dy": c.real("dy")}


def zero_scen(mk, i):
    from einsteinpy.utils.dual import DualNumber as D
    a = D(i["x"], i["dx"])
    r = {f"a**{n}": [(a ** n).val, (a ** n).deriv] for n in POWS if n > 0}
    b = D(i["y"], i["dy"])
    r["eq"] = bool(a == b)
    r["ne"] = bool(a != b)
    r["self"] = bool(a == D(i["x"], i["dx"]))
    return r


def zero_claims(c, out, i):
    same = And(i["x"] == i["y"], i["dx"] == i["dy"])
    cl = [Holds("eq", same if out["eq"] else Not(same)), Fact("ne = not eq", out["ne"] == (not out["eq"])), Fact("a == a", out["self"])]
    for n in POWS:
        if n > 0:
            cl += [Eq(f"a**{n}.val", out[f"a**{n}"][0], i["x"] ** n),
                   Eq(f"a**{n}.deriv", out[f"a**{n}"][1], n * i["x"] ** (n - 1) * i["dx"])]
    return cl


# ---- 0/0 is the limit
def lim_in(c):
    d = {n: c.real(n) for n in ("dx", "dy")}
    c.assume(d["dy"] != 0)
    return d


def lim_scen(mk, i):
    from einsteinpy.utils.dual import DualNumber as D
    z = i["dx"] * 0
    return {"v": (D(z, i["dx"]) / D(z, i["dy"])).val, "n": (D(z, i["dx"]) / D(1 + z, i["dy"])).val,
            "nd": (D(z, i["dx"]) / D(2 + z, i["dy"])).deriv}


def lim_claims(c, out, i):
    return [Eq("0/0", out["v"], i["dx"] / i["dy"]), Eq("0/1", out["n"], 0), Eq("(0/2)'", out["nd"], i["dx"] / 2)]


# ---- metric derivatives
def jac_in(kind):
    def f(c):
        d = geo_inputs(c, kind)
        c.assume(delta1(d) > 0)
        return d
    return f


def helpers():
    """The module's differentiation helpers or, where they are not there under
    their present names, differentiation with dual coordinates directly."""
    from einsteinpy.utils import dual

    def diff(g, prm, x, idx, k):
        if k not in range(4) or len(idx) != 2:
            raise ValueError
        v = g([dual.DualNumber(x[j], 1.0 if j == k else 0.0) for j in range(4)], *prm)[idx]
        return v.deriv if isinstance(v, dual.DualNumber) else 0.0

    def jac(g, prm, x, k):
        return [[diff(g, prm, x, (m, n), k) for n in range(4)] for m in range(4)]
    return getattr(dual, "_jacobian_g", jac), getattr(dual, "_diff_g", diff)


def jac_scen(kind):
    def f(mk, i):
        _jacobian_g = helpers()[0]
        o = geodesic_obj(mk, kind, params_of(kind, i), [i["r"], i["th"], i["ph"]], [0.0, 0.0, 0.0], False)
        x = mk.arr([i["t"], i["r"], i["th"], i["ph"]])
        return {"g": o.metric(x, *o.metric_params), "dg": [_jacobian_g(o.metric, o.metric_params, x, k) for k in range(4)]}
    return f


def jac_claims(c, out, i):
    g = lifted(out["g"])
    w = metric_derivs(c, g, xs(i))
    cl = []
    for k in range(4):
        cl += EqArr(f"d_{k} g", lifted(out["dg"][k]), w[k])
    return cl


# ---- a user metric depending on every coordinate, non-diagonal
UX = ("x0", "x1", "x2", "x3")


def user_g(x, *prm):
    """Written the way the documentation tells users to write a metric."""
    import numpy
    a, b = prm
    g = numpy.zeros((4, 4), dtype=object)
    for m in range(4):
        for n in range(4):
            lo, hi = min(m, n), max(m, n)
            g[m, n] = (a * x[lo] * x[hi] - (lo + 1)) * (1 / (1 + x[hi] ** 2)) + b * x[(lo + hi) % 4] ** 3 - (hi + 2) * numpy.cos(x[lo])
    return g


def user_in(c):
    d = {n: c.real(n) for n in UX}
    d["a"], d["b"] = c.real("a"), c.real("b")
    return d


def user_scen(mk, i):
    _jacobian_g, _diff_g = helpers()
    x = mk.arr([i[n] for n in UX])
    prm = (i["a"], i["b"])
    out = {"g": user_g(x, *prm), "dg": [_jacobian_g(user_g, prm, x, k) for k in range(4)],
           "dgij": [[_diff_g(user_g, prm, x, (m, n), k) for m, n in ((0, 3), (3, 0), (2, 2))] for k in range(4)]}
    out["badwrt"] = mk.attempt(lambda: _diff_g(user_g, prm, x, (0, 0), 4), Exception)
    out["badidx"] = mk.attempt(lambda: _diff_g(user_g, prm, x, (0, 0, 1), 1), Exception)
    return out


def user_claims(c, out, i):
    g = lifted(out["g"])
    w = metric_derivs(c, g, [i[n] for n in UX])
    cl = [Fact(k, type(out[k]).__name__ == "ValueError", repr(out[k])) for k in ("badwrt", "badidx")]
    for k in range(4):
        cl += EqArr(f"d_{k} g", lifted(out["dg"][k]), w[k])
        cl += [Eq(f"d_{k} g{m}{n}", out["dgij"][k][z], w[k][m, n]) for z, (m, n) in enumerate(((0, 3), (3, 0), (2, 2)))]
    return cl


FN = ("DualNumber.__add__/__sub__/__mul__/__truediv__/__pow__/__neg__/r* variants", "DualNumber.sin/cos/tan/exp/log",
      "_deriv", "_diff_g", "_jacobian_g")
CASES = [simple_case("ops", inp, scen, claims, functions=FN, bounds="all x!=0, y!=0, derivatives, scalars; integer powers -3..5"),
         simple_case("positive", pos_in, pos_scen, pos_claims, functions=FN, bounds="all x>0, all real exponents"),
         simple_case("zero", zero_in, zero_scen, zero_claims, functions=FN, bounds="all x including 0, integer powers 1..5"),
         simple_case("limit", lim_in, lim_scen, lim_claims, functions=FN, bounds="both values 0, all derivatives (denominator's nonzero)"),
         simple_case("user_metric", user_in, user_scen, user_claims, functions=FN, bounds="a non-diagonal rational/trigonometric metric of all coordinates")]
CASES += [simple_case(f"metric_{k}", jac_in(k), jac_scen(k), jac_claims, functions=FN + (f"geodesic metric {k}",),
                      bounds="all r>0 with Delta>0, 0<theta<pi, 0<=a<=1, Q") for k in KINDS]
