"""C21: embedding of the Schwarzschild optical geometry."""
from .common import *
from symx import funcs as F
from symx.real import lift, cmp0

FN = ("hypersurface.schwarzschildembedding.SchwarzschildEmbedding.__init__", "radial_coord", "gradient", "get_values", "get_values_surface")
KG = {"kg": 1, "g": 1000, "t": Fraction(1, 1000)}
UNIT = 10 ** 23          # the class measures masses in 10e22 kg


def base(c, lo=2.2, hi=4):
    d = {"m": c.real("m", 1, 2, positive=True), "x": c.real("x", lo, hi, positive=True)}
    return d


def emb(mk, i, unit="kg", K=None):
    """Embedding of mass m (in the class's unit 10e22 kg)."""
    from einsteinpy.hypersurface import SchwarzschildEmbedding
    M = mk.q((lift(i["m"]) if mk.symbolic else i["m"]) * UNIT * KG[unit], u.Unit(unit))
    return (K or SchwarzschildEmbedding)(M)


# ---- the embedding equations; r = x m
def eq_in(lo, hi, unit=None):
    def f(c):
        d = base(c, lo, hi)
        c.assume(d["x"] > Fraction(9, 4))
        c.assume(d["x"] != 3)
        return d
    return f


def eq_scen(unit):
    def scen(mk, i):
        e = emb(mk, i, unit)
        r = i["x"] * i["m"]
        return {"R": e.radial_coord(r), "dZ": e.gradient(r), "M": e.M.value, "r0": e.r_init.value, "unit": e.input_units[0] == u.Unit(unit)}
    return scen


def eq_claims(c, out, i):
    m, x = lift(i["m"]), lift(i["x"])
    r, R, dZ = x * m, lift(out["R"]), lift(out["dZ"])
    f = 1 - 2 / x
    w = F.sqrt(f)
    # optical metric dr^2/f^2 + r^2/f dphi^2 = dR^2 + dZ^2 + R^2 dphi^2
    slope2 = (1 / f ** 2) - ((1 - 3 / x) / (f * w)) ** 2
    return [Eq("mass in class units", out["M"], m), Eq("first r just outside 3m", out["r0"], 3 * m + Fraction(1, 10000)),
            Fact("input unit", out["unit"]),
            Eq("circumferential radius", R * w, r), Eq("radius is r_,R", R * R * (r - 2 * m), r ** 3), Holds("radius positive", cmp0(R, ">")),
            Eq("slope", dZ ** 2, slope2),
            # (dZ^2 - slope^2)(dZ^2 - R slope^2) = 0
            Eq("slope up to the recorded factor sqrt(R)", dZ ** 4 + R * slope2 ** 2, (1 + R) * slope2 * dZ ** 2),
            Holds("slope sign", cmp0(dZ * (x - 3), ">"))]


# ---- integration of the profile, with gradient and radius as fixed polynomials
def grad(r, m):
    return 2 * r * r - r * m + m * m


def rad(r, m):
    return r * r + m


def probe():
    from einsteinpy.hypersurface import SchwarzschildEmbedding

    class Probe(SchwarzschildEmbedding):
        def gradient(self, r):
            return grad(r, self.M.value)

        def radial_coord(self, r):
            return rad(r, self.M.value)
    return Probe


def prof_scen(alpha, surface):
    def scen(mk, i):
        e = emb(mk, i, "kg", probe())
        if not surface:
            x, z = e.get_values(alpha)
            return {"R": list(x), "Z": list(z)}
        X, Y, Z = e.get_values_surface(alpha)
        n = X.shape[1]
        Zs = np.asarray(Z, dtype=object).reshape(X.shape)
        rows = [0, 1, 2, 7, 15, 30, 44, X.shape[0] - 1]
        return {"rows": X.shape[0], "cols": n, "same": X.shape == Y.shape, "X": [list(X[j]) for j in rows], "Y": [list(Y[j]) for j in rows], "Z": [list(Zs[j]) for j in rows]}
    return scen


def path(m, alpha, stop, out=True):
    """Radii visited (r0 = 3m + 1e-4, step m/alpha) until the bound, and Euler heights."""
    r0 = 3 * m + Fraction(1, 10000)
    rs, zs, k, z = [], [], 0, lift(0)
    while True:
        r = r0 + (k if out else -k) * m / alpha
        # m >= 1/2: the bound is crossed at a step that does not depend on m
        inside = (stop - 3) * alpha > k + (Fraction(1, 5000) * alpha) if out else (3 - stop) * alpha > k - Fraction(1, 10 ** 6)
        if not inside:
            return rs, zs
        rs.append(r)
        zs.append(z)
        z = z + grad(r, m) * m / alpha
        k += 1


def prof_in(c):
    d = {"m": c.real("m", 1, 2, positive=True)}
    c.assume(d["m"] >= Fraction(1, 2))
    c.assume(d["m"] <= 1000)
    return d


def prof_claims(alpha):
    def f(c, out, i):
        m = lift(i["m"])
        ro, zo = path(m, alpha, 9)
        ri, zi = path(m, alpha, Fraction(9, 4), False)
        R, Z = [rad(r, m) for r in ro + ri], zo + zi
        r = [Fact("count", len(out["R"]) == len(R) == len(out["Z"]), f"{len(out['R'])} vs {len(R)}")]
        for k, (a, b) in enumerate(zip(out["R"], R)):
            r.append(Eq(f"R{k}", a, b))
        for k, (a, b) in enumerate(zip(out["Z"], Z)):
            r.append(Eq(f"Z{k}", a, b))
        return r
    return f


def surf_claims(alpha):
    def f(c, out, i):
        import math
        m = lift(i["m"])
        rs, zs = path(m, alpha, 20)
        r = [Fact("rows", out["rows"] == 60), Fact("columns", out["cols"] == len(rs), f"{out['cols']} vs {len(rs)}"), Fact("shapes", out["same"])]
        rows = [0, 1, 2, 7, 15, 30, 44, 59]
        eps = Fraction(1, 10 ** 9)
        for j, row in enumerate(rows):
            ph = 2 * math.pi * row / 59
            for k in range(min(len(rs), out["cols"])):
                R = rad(rs[k], m)
                for n, v in (("X", math.cos(ph)), ("Y", math.sin(ph))):
                    d = lift(out[n][j][k]) - R * Fraction(v).limit_denominator(10 ** 13)
                    r.append(Holds(f"{n} phi{row} {k}", And(cmp0(d - eps * R, "<="), cmp0(d + eps * R, ">="))))
                r.append(Eq(f"Z phi{row} {k}", out["Z"][j][k], zs[k]))
        return r
    return f


CASES = [simple_case(f"equations_{n}_{un}", eq_in(lo, hi), eq_scen(un), eq_claims, functions=FN[:3], check_defined=False,
                     bounds=f"every mass (given in {un}), every r > 9m/4, r != 3m")
         for n, lo, hi, un in (("outer", 3.5, 8, "kg"), ("inner", 2.3, 2.9, "g"))]
CASES += [simple_case(f"profile_alpha{a}", prof_in, prof_scen(a, False), prof_claims(a), functions=FN, check_defined=False,
                      bounds=f"masses 0.5..1000 units, alpha = {a}; slope and radius as fixed polynomials") for a in (1, 2, 5)]
CASES += [simple_case(f"surface_alpha{a}", prof_in, prof_scen(a, True), surf_claims(a), functions=FN, check_defined=False,
                      bounds=f"masses 0.5..1000 units, alpha = {a}, 8 of the 60 angles; slope and radius as fixed polynomials") for a in (1,)]
