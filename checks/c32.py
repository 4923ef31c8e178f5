"""C32: predefined space-times."""
from fractions import Fraction

from .symcommon import *
from symx import funcs as F

MOD = "symbolic.predefined."


def inverse(g, n):
    """Exact inverse of a symmetric matrix of blocks of size <= 2."""
    h = [[0] * n for _ in range(n)]
    for i in range(n):
        js = [j for j in range(n) if j != i and not isz(g[i][j])]
        if not js:
            h[i][i] = 1 / lift(g[i][i])
        else:
            (j,) = js
            d = lift(g[i][i]) * g[j][j] - lift(g[i][j]) * g[j][i]
            h[i][i], h[i][j] = lift(g[j][j]) / d, -lift(g[i][j]) / d
    return h


def syms(names):
    import sympy
    return sympy.symbols(names)


class Space:
    """One predefined metric: how it is called, its coordinates and parameters.
    pars: keyword -> (symbol of the default value, input name, kwargs of
    c.real)."""

    def __init__(self, fn, coords, pars, angle=(), extra=None, inputs=None, jets=None):
        self.fn, self.coords, self.pars, self.angle, self.extra, self.more, self.jets = fn, coords, pars, angle, extra, inputs, jets

    def inputs(self, c):
        d = {}
        for x, kw in self.coords:
            d[x] = c.angle(x, polar=True) if x in self.angle else c.real(x, **kw)
        for k, (s, kw) in self.pars.items():
            d[s] = c.real(s, **kw)
        if self.extra:
            self.extra(c, d)
        return d

    def arena(self, mk, inp):
        ar = Arena(mk, 4, names=[x for x, _ in self.coords])
        import sympy
        for x, s in zip([x for x, _ in self.coords], ar.x):
            ar.symval[s] = inp[x]
        for k, (s, kw) in self.pars.items():
            ar.symval[sympy.Symbol(s)] = inp[s]
            ar.symval[sympy.Symbol("my_" + s)] = inp[s]
        if self.jets:
            self.jets(ar, inp)
        return ar

    def build(self, how):
        """The metric with default symbols, or with other symbols passed as
        keywords / positionally, or a name and its components."""
        import sympy
        from einsteinpy.symbolic import predefined
        f = getattr(predefined, self.fn)
        if how == "default":
            return f()
        if how == "keywords":
            return f(**{k: sympy.Symbol("my_" + s) for k, (s, _) in self.pars.items() if k != "_"})
        if how == "positional":
            return f(*[sympy.Symbol("my_" + s) for k, (s, _) in self.pars.items() if k != "_"])


def jets(ar, m, n=4, second=True):
    """Components, first and second derivatives of a metric tensor."""
    import sympy
    T = m.tensor()
    g = [[0 if T[i, j] == 0 else ar.val(T[i, j]) for j in range(n)] for i in range(n)]
    out = {"g": g}
    if second:
        d1, d2 = {}, {}
        for i in range(n):
            for j in range(i, n):
                for k in range(n):
                    e = sympy.diff(T[i, j], ar.x[k])
                    if e == 0:
                        continue
                    d1[k, i, j] = ar.val(e)
                    for l in range(k, n):
                        e2 = sympy.diff(e, ar.x[l])
                        if e2 != 0:
                            d2[k, l, i, j] = ar.val(e2)
        out["d1"], out["d2"] = d1, d2
    return out


def geo_of(o, n=4):
    d1, d2 = o["d1"], o["d2"]
    return Geo(n, o["g"], inverse(o["g"], n), lambda k, i, j: d1.get((k, min(i, j), max(i, j)), 0),
               lambda k, l, i, j: d2.get((min(k, l), max(k, l), min(i, j), max(i, j)), 0))


def scenario_of(sp, hows, second):
    def scenario(mk, inp):
        ar = sp.arena(mk, inp)
        out = {}
        for h in hows:
            with stubbed(None):
                m = sp.build(h)
            o = jets(ar, m, second=second and h == hows[0])
            left = {str(x) for x in m.tensor().free_symbols} - {x for x, _ in sp.coords}
            o.update(left=sorted(left & {p for p, _ in sp.pars.values()}) if h != "default" else [], config=m.config, order=m.order, syms=[str(s) for s in m.syms], kind=type(m).__name__)
            out[h] = o
        return out
    return scenario


def line_case(name, sp, oracle, hows=("default", "keywords", "positional"), **kw):
    """Line element: the components are those of the textbook metric for the
    default symbols and for parameters passed by the user."""
    def claims(c, out, inp):
        r = []
        want = {(min(i, j), max(i, j)): v for (i, j), v in oracle(c, inp).items()}
        for h, o in out.items():
            r += [Fact(f"{h}.config", o["config"] == "ll"), Fact(f"{h}.order", o["order"] == 2), Fact(f"{h}.type", o["kind"] == "MetricTensor"),
                  Fact(f"{h}.coordinates", o["syms"] == [x for x, _ in sp.coords])]
            r.append(Fact(f"{h}.only the given parameters", o["left"] == [], str(o["left"])))
            for i in range(4):
                for j in range(4):
                    r.append(Eq(f"{h}.g{i}{j}", o["g"][i][j], want.get((min(i, j), max(i, j)), 0)))
        return r
    return sym_case(name, sp.inputs, scenario_of(sp, hows, False), claims, bounds="every component, all coordinates and parameters, " + "/".join(hows) + " arguments",
                    functions=(MOD + sp.fn,), **kw)


def field_case(name, sp, rule, what, **kw):
    """Field equation: rule(geo, o, c, inp) -> claims on the curvature."""
    def claims(c, out, inp):
        o = out["default"]
        return rule(geo_of(o), o, c, inp)
    return sym_case(name, sp.inputs, scenario_of(sp, ("default",), True), claims, bounds=what + ", all coordinates and parameters",
                    functions=(MOD + sp.fn, "symbolic.metric.MetricTensor.tensor"), **kw)


def ricci_is(f):
    """R_ab = f(a, b) for every pair."""
    def rule(geo, o, c, inp):
        F_ = f(o, c, inp)
        return [Eq(f"ricci{a}{b}", geo.ricci(a, b), F_(a, b)) for a, b in pairs(4)]
    return rule


def lam(value):
    return ricci_is(lambda o, c, inp: lambda a, b: pm(value(inp), o["g"][a][b]))


VAC = ricci_is(lambda o, c, inp: lambda a, b: 0)


def flat(geo, o, c, inp):
    return [Eq(f"riem{a}{b}{p}{q}", geo.riem(a, b, p, q), 0) for a in range(4) for b in range(a + 1, 4) for p in range(4) for q in range(p + 1, 4)]


def scalar0(geo, o, c, inp):
    return [Eq("scalar", geo.scalar(), 0)]


pos = dict(lo=0.6, hi=2, positive=True)
anyr = dict(lo=-2, hi=2)
SPH = [("t", anyr), ("r", dict(lo=3, hi=6, positive=True)), ("theta", {}), ("phi", anyr)]
XYZ = [("t", anyr), ("x", anyr), ("y", anyr), ("z", anyr)]
C_ = {"c": ("c", pos)}


def s2(inp):
    return F.sin(inp["theta"]) ** 2


def nz(*fs):
    def extra(c, d):
        for f in fs:
            c.assume(f(d) != 0)
    return extra


def hole(pars):
    return {k: v for k, v in dict(c=("c", pos), G=("G", pos), eps_0=("eps_0", pos), sch=("r_s", pos), a=("a", dict(lo=0.1, hi=0.9)), Q=("Q", anyr)).items() if k in pars}


def rq2(d):
    return d["Q"] ** 2 * d["G"] / (4 * F.PI() * d["eps_0"] * d["c"] ** 4) if "Q" in d else 0


def delta(d):
    return d["r"] ** 2 - d["r_s"] * d["r"] + (d["a"] ** 2 if "a" in d else 0) + rq2(d)


def outside(c, d):
    c.assume(delta(d) != 0)


def bh_line(c, d):
    """Textbook Kerr-Newman element in units of time, signature (+---)."""
    r, a, cc, s = d["r"], d.get("a", 0), d["c"], s2(d)
    Sig, D, k = r ** 2 + a * a * (1 - s), delta(d), 1 / d["c"] ** 2
    return {(0, 0): (D - a * a * s) / Sig, (1, 1): -k * Sig / D, (2, 2): -k * Sig,
            (3, 3): -k * s * ((r ** 2 + a * a) ** 2 - D * a * a * s) / Sig, (0, 3): a * s * (r ** 2 + a * a - D) / (Sig * cc)}


MINK = Space("MinkowskiCartesian", XYZ, C_)
MINKP = Space("MinkowskiPolar", SPH, C_, angle=("theta",))
SCH = Space("Schwarzschild", SPH, hole(("c", "sch")), angle=("theta",), extra=outside)
KERR = Space("Kerr", SPH, hole(("c", "sch", "a")), angle=("theta",), extra=outside)
KN = Space("KerrNewman", SPH, hole(("c", "G", "eps_0", "sch", "a", "Q")), angle=("theta",), extra=outside)
RN = Space("ReissnerNordstorm", SPH, hole(("c", "G", "eps_0", "sch", "Q")), angle=("theta",), extra=outside)
ADS = Space("AntiDeSitter", [("t", {}), ("chi", pos), ("theta", {}), ("phi", anyr)], {}, angle=("t", "theta"))
ADSS = Space("AntiDeSitterStatic", [("t", anyr), ("r", pos), ("theta", {}), ("phi", anyr)], {}, angle=("theta",))
DS = Space("DeSitter", XYZ, {"_": ("alpha", pos)})
ERNST = Space("Ernst", SPH, {"B": ("B", pos), "M": ("M", pos)}, angle=("theta",), extra=nz(lambda d: d["r"] - 2 * d["M"]))
BK = Space("BertottiKasner", SPH, {"c": ("c", pos), "k": ("k", pos), "lambd": ("l", pos)}, angle=("theta",))
BV = Space("BarriolaVilekin", SPH, {"c": ("c", pos), "k": ("k", pos)}, angle=("theta",))
GODEL = Space("Godel", XYZ, {"_": ("omega", pos)})
DAV = Space("Davidson", [("t", pos), ("r", pos), ("z", anyr), ("phi", anyr)], {})
JNW = Space("JanisNewmanWinicour", SPH, {"c": ("c", pos), "G": ("G", pos), "gam": ("gam", dict(lo=0.7, hi=0.95, positive=True)), "M": ("M", dict(lo=0.1, hi=0.4, positive=True))},
            angle=("theta",), extra=lambda c, d: c.assume(d["r"] * d["gam"] * d["c"] ** 2 - 2 * d["G"] * d["M"] > 0))


def al_extra(c, d):
    c.assume((d["x"] - d["x_s"]) ** 2 + d["y"] ** 2 + d["z"] ** 2 > 0)


ALC = Space("AlcubierreWarp", XYZ, {"x_s": ("x_s", anyr), "sigma": ("sigma", pos), "R": ("R", pos), "v": ("v", anyr)}, extra=al_extra)


def bessel_extra(c, d):
    d["j0"], d["j1"] = c.real("j0", -1, 1), c.real("j1", -1, 1)


def bessel_jets(ar, inp):
    ar.bessels[ar.x[1]] = (inp["j0"], inp["j1"])


BES = Space("BesselGravitationalWave", [("t", {}), ("rho", pos), ("phi", anyr), ("z", anyr)], {"C": ("C", pos)}, angle=("t",), extra=bessel_extra, jets=bessel_jets)


# C-metric: f a cubic, h(y) = -f(-y)
def cm_extra(c, d):
    for k in range(4):
        d[f"c{k}"] = c.real(f"c{k}", 0.5, 1.5)
    c.assume(d["x"] + d["y"] != 0)
    c.assume(cm_f(d)[0] != 0)
    c.assume(cm_h(d)[0] != 0)


def cm_f(d):
    x = d["x"]
    c0, c1, c2, c3 = (d[f"c{k}"] for k in range(4))
    return c0 + c1 * x + c2 * x ** 2 + c3 * x ** 3, c1 + 2 * c2 * x + 3 * c3 * x ** 2, 2 * c2 + 6 * c3 * x


def cm_h(d):
    y = d["y"]
    c0, c1, c2, c3 = (d[f"c{k}"] for k in range(4))
    return -(c0 - c1 * y + c2 * y ** 2 - c3 * y ** 3), -(-c1 + 2 * c2 * y - 3 * c3 * y ** 2), -(2 * c2 - 6 * c3 * y)


def cm_jets(ar, inp):
    f, h = cm_f(inp), cm_h(inp)
    ar.jets["f"] = (f[0], lambda k: f[1], lambda k, l: f[2])
    ar.jets["h"] = (h[0], lambda k: h[1], lambda k, l: h[2])


CM = Space("CMetric", [("t", anyr), ("x", pos), ("y", pos), ("phi", anyr)], {}, extra=cm_extra, jets=cm_jets)


def mink_line(c, d):
    k = 1 / d["c"] ** 2
    return {(0, 0): -1, (1, 1): k, (2, 2): k, (3, 3): k}


def minkp_line(c, d):
    k, r = 1 / d["c"] ** 2, d["r"]
    return {(0, 0): -1, (1, 1): k, (2, 2): k * r ** 2, (3, 3): k * r ** 2 * s2(d)}


def ads_line(c, d):
    ct, e = F.cos(d["t"]) ** 2, F.exp(lift(d["chi"]))
    sh = ((e - 1 / e) / 2) ** 2
    return {(0, 0): -1, (1, 1): ct, (2, 2): ct * sh, (3, 3): ct * sh * s2(d)}


def adss_line(c, d):
    e = F.exp(lift(d["r"]))
    sh, ch = ((e - 1 / e) / 2) ** 2, ((e + 1 / e) / 2) ** 2
    return {(0, 0): -ch, (1, 1): 1, (2, 2): sh, (3, 3): sh * s2(d)}


def ds_line(c, d):
    e = F.exp(lift(d["t"]) / d["alpha"]) ** 2
    return {(0, 0): -1, (1, 1): e, (2, 2): e, (3, 3): e}


def ernst_line(c, d):
    L, w, r = 1 + d["B"] ** 2 * d["r"] ** 2 * s2(d), 1 - 2 * d["M"] / d["r"], d["r"]
    return {(0, 0): -L ** 2 * w, (1, 1): L ** 2 / w, (2, 2): L ** 2 * r ** 2, (3, 3): r ** 2 * s2(d) / L ** 2}


def bk_line(c, d):
    e = F.exp(F.sqrt(lift(d["l"])) * d["c"] * d["t"]) ** 2
    k = 1 / d["c"] ** 2
    return {(0, 0): -1, (1, 1): e * k, (2, 2): k / d["l"], (3, 3): k * s2(d) / d["l"]}


def bv_line(c, d):
    q, r = 1 / d["c"] ** 2, d["r"] * d["k"]
    return {(0, 0): -1, (1, 1): q, (2, 2): q * r ** 2, (3, 3): q * r ** 2 * s2(d)}


def godel_line(c, d):
    e = F.exp(F.sqrt(lift(2)) * d["omega"] * d["x"])
    return {(0, 0): -1, (1, 1): 1, (2, 2): -e ** 2 / 2, (3, 3): 1, (0, 2): -e}


def alc_line(c, d):
    rs = F.sqrt((lift(d["x"]) - d["x_s"]) ** 2 + d["y"] ** 2 + d["z"] ** 2)
    s, R = d["sigma"], d["R"]
    f = (F.tanh(s * (rs + R)) - F.tanh(s * (rs - R))) / (2 * F.tanh(s * lift(R)))
    return {(0, 0): -1 + (d["v"] * f) ** 2, (0, 1): -d["v"] * f, (1, 1): 1, (2, 2): 1, (3, 3): 1}


def jnw_line(c, d):
    al = 1 - 2 * d["G"] * d["M"] / (d["c"] ** 2 * d["gam"] * d["r"])
    p = F.power(lift(al), lift(d["gam"]))
    k, r = 1 / d["c"] ** 2, d["r"]
    return {(0, 0): -p, (1, 1): k / p, (2, 2): k * r ** 2 * al / p, (3, 3): k * r ** 2 * al / p * s2(d)}


def dav_line(c, d):
    w = F.power(1 + lift(d["r"]) ** 2, Fraction(1, 5)) ** 2
    t = F.power(lift(d["t"]), Fraction(1, 3)) ** 2
    return {(0, 0): -w ** 3, (1, 1): t ** 2 * w, (2, 2): 1 / (t * w), (3, 3): t ** 2 * d["r"] ** 2 / w}


def bes_line(c, d):
    ct, rho = F.cos(d["t"]), d["rho"]
    p = F.exp(lift(d["C"]) * d["j0"] * ct)                              # e^U
    C2 = lift(d["C"]) ** 2                                              # e^2K = e^(C^2 rho (rho (J0^2+J1^2) - 2 J0 J1 cos^2 t))
    q = F.exp(C2 * rho ** 2 * d["j0"] ** 2) * F.exp(C2 * rho ** 2 * d["j1"] ** 2) / F.exp(C2 * rho * d["j0"] * d["j1"] * ct ** 2) ** 2
    return {(0, 0): -q / p ** 2, (1, 1): q / p ** 2, (2, 2): rho ** 2 / p ** 2, (3, 3): p ** 2}


def cm_line(c, d):
    w, f, h = 1 / (lift(d["x"]) + d["y"]) ** 2, cm_f(d)[0], cm_h(d)[0]
    return {(0, 0): -w * h, (1, 1): w / f, (2, 2): w / h, (3, 3): w * f}


def perfect_radiation(geo, o, c, inp):
    """R = 0 and isotropic pressure: R_ii/g_ii equal, R_tt/g_tt = -3 times it,
    no flux."""
    R = {(a, b): geo.ricci(a, b) for a, b in pairs(4)}
    g = o["g"]
    r = [Eq(f"ricci{a}{b}", R[a, b], 0) for a, b in R if a != b]
    r += [Eq(f"isotropic{a}", lift(R[a, a]) * g[1][1], lift(R[1, 1]) * g[a][a]) for a in (2, 3)]
    r.append(Eq("trace", lift(R[0, 0]) * g[1][1], -3 * lift(R[1, 1]) * g[0][0]))
    return r


def only_rr(geo, o, c, inp):
    return [Eq(f"ricci{a}{b}", geo.ricci(a, b), 0) for a, b in pairs(4) if (a, b) != (1, 1)]


def godel_rule(geo, o, c, inp):
    e = F.exp(F.sqrt(lift(2)) * inp["omega"] * inp["x"])
    u = [-1, 0, -e, 0]
    return ricci_is(lambda o, c, inp: lambda a, b: pm(2 * inp["omega"] ** 2, pm(u[a], u[b])))(geo, o, c, inp)


def monopole(geo, o, c, inp):
    """T_ab of a global monopole: R_tt = R_rr = 0 and an angular part that is
    (1 - k^2)/k^2 g/r^2 with no other component."""
    k, r = inp["k"], inp["r"]
    r_ = [Eq(f"ricci{a}{b}", geo.ricci(a, b), 0) for a, b in pairs(4) if a != b or a < 2]
    for a in (2, 3):
        r_.append(Eq(f"ricci{a}{a}", geo.ricci(a, a), (1 - k ** 2) * o["g"][a][a] * inp["c"] ** 2 / (k * r) ** 2))
    return r_


D = ("default",)
CASES = [
    line_case("minkowski", MINK, mink_line), field_case("minkowski_flat", MINK, flat, "Riemann = 0"),
    line_case("minkowski_polar", MINKP, minkp_line), field_case("minkowski_polar_flat", MINKP, flat, "Riemann = 0"),
    line_case("schwarzschild", SCH, bh_line), field_case("schwarzschild_vacuum", SCH, VAC, "Ricci = 0"),
    line_case("kerr", KERR, bh_line), field_case("kerr_vacuum", KERR, VAC, "Ricci = 0"),
    line_case("kerr_newman", KN, bh_line), field_case("kerr_newman_trace", KN, scalar0, "R = 0 (electrovacuum)",),
    line_case("reissner_nordstrom", RN, bh_line), field_case("reissner_nordstrom_trace", RN, scalar0, "R = 0 (electrovacuum)"),
    line_case("anti_de_sitter", ADS, ads_line, hows=D), field_case("anti_de_sitter_field", ADS, lam(lambda d: -3), "R_ab = -3 g_ab"),
    line_case("anti_de_sitter_static", ADSS, adss_line, hows=D), field_case("anti_de_sitter_static_field", ADSS, lam(lambda d: -3), "R_ab = -3 g_ab"),
    line_case("de_sitter", DS, ds_line, hows=D), field_case("de_sitter_field", DS, lam(lambda d: 3 / d["alpha"] ** 2), "R_ab = (3/alpha^2) g_ab"),
    line_case("ernst", ERNST, ernst_line), field_case("ernst_trace", ERNST, scalar0, "R = 0 (electrovacuum)"),
    line_case("bertotti_kasner", BK, bk_line), field_case("bertotti_kasner_field", BK, lam(lambda d: d["l"] * d["c"] ** 2), "R_ab = Lambda c^2 g_ab"),
    line_case("barriola_vilenkin", BV, bv_line), field_case("barriola_vilenkin_field", BV, monopole, "monopole Ricci tensor"),
    line_case("godel", GODEL, godel_line, hows=D), field_case("godel_field", GODEL, godel_rule, "R_ab = 2 omega^2 u_a u_b"),
    line_case("alcubierre", ALC, alc_line),
    line_case("janis_newman_winicour", JNW, jnw_line), field_case("janis_newman_winicour_field", JNW, only_rr, "only R_rr differs from zero (scalar field)"),
    line_case("davidson", DAV, dav_line, hows=D), line_case("bessel", BES, bes_line), line_case("cmetric", CM, cm_line, hows=D),
    field_case("davidson_field", DAV, perfect_radiation, "radiation perfect fluid"),
    field_case("bessel_vacuum", BES, VAC, "Ricci = 0, any J0, J1"),
    field_case("cmetric_vacuum", CM, VAC, "Ricci = 0 for every cubic f and h(y) = -f(-y)"),
]


# ---- finding metrics and constants by name
def find_scen(mk, i):
    import einsteinpy.symbolic.predefined as P
    from einsteinpy.symbolic.predefined import find
    from einsteinpy.symbolic.constants import get_constant
    names = sorted(n for n, f in vars(P).items() if callable(f) and n[0].isupper())
    parts = {n[a:b] for n in names for a in range(len(n)) for b in range(a + 1, len(n) + 1)} | {"", "zz", "find", "kerr ", "importlib"}
    bad = []
    for p in sorted(parts):
        for q in {p, p.lower(), p.upper(), p.swapcase()}:
            if sorted(find(q)) != [n for n in names if q.lower() in n.lower()]:
                bad.append(q)
    k = {n: mk.attempt(lambda: get_constant(n), Exception) for n in ("c", "G", "Cosmo_Const", "eps_0", "h")}
    return {"z": i["z"], "bad": ",".join(bad[:5]), "names": ",".join(names), "consts": ",".join(f"{n}={v.name}/{v.descriptive_name}" if not isinstance(v, Exception) else type(v).__name__ for n, v in k.items())}


def find_claims(c, out, i):
    want = "c=c/Speed Of Light,G=G/Gravitational Constant,Cosmo_Const=Lambda/Cosmological Constant,eps_0=eps_0/Permittivity of free space,KeyError"
    return [Eq("z", out["z"], i["z"]), Fact("search", out["bad"] == "", "wrong answers for " + out["bad"]), Fact("constants", out["consts"] == want, out["consts"]),
            Fact("all there", len(out["names"].split(",")) >= 18, out["names"])]


CASES.append(sym_case("names", lambda c: {"z": c.real("z", 0, 1)}, find_scen, find_claims, functions=("symbolic.predefined.find", "symbolic.constants.get_constant"),
                      bounds="every part of every metric's name in four spellings, all constants"))
