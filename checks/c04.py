"""C04: results do not depend on the units in which quantities are given."""
from .common import *
from .c01 import cart_in, sph_in, spin_in, kw
from . import c01, c02
from .c02 import VC, VS, withv

# the same physical quantity given in SI and in these units
ALT = {u.s: u.hour, u.m: u.km, u.rad: u.deg, u.m / u.s: u.km / u.hour, u.rad / u.s: u.deg / u.minute,
       u.kg: u.g, u.C: u.mC, u.C / u.kg: u.uC / u.g, u.one: u.percent}


class AltMk:
    """Maker producing the same quantities in other units."""

    def __init__(self, mk):
        self.mk = mk
        self.symbolic = mk.symbolic

    def q(self, v, unit):
        return self.mk.q(v, unit).to(ALT[unit])

    def __getattr__(self, n):
        return getattr(self.mk, n)


def both(f):
    def g(mk, i):
        return {"si": f(mk, i), "alt": f(AltMk(mk), i)}
    return g


def same(c, out, i):
    from symx.harness import flatten
    a, b = flatten(out["si"]), flatten(out["alt"])
    cl = [Fact("same outputs", list(a) == list(b), f"{list(a)} {list(b)}")]
    return cl + [Eq(k, b[k], a[k]) for k in a]


def conv_scen(start, cls):
    def f(mk, i):
        out = {}
        o = {"c": c01.cart, "s": sph_coords, "b": bl_coords}[start](mk, i)
        out["position"] = list(o.position())
        out["si"] = list(o.values())
        for s in "csb":
            if s != start:
                out["to_" + s] = c01.vals(c01.conv(o, s, mk, i))
        return out
    return f


def diff_scen(start):
    def f(mk, i):
        o = c02.start_obj(mk, i, start)
        out = {"position": list(o.position()), "si": list(o.values())}
        for s in "csb":
            if s != start:
                out["to_" + s] = c02.vals(getattr(o, {"s": "spherical_differential", "b": "bl_differential",
                                                      "c": "cartesian_differential"}[s])(**kw(mk, i)))
        return out
    return f


def met_in(kind):
    def f(c):
        d = regular(c, bh_inputs(c, kind != "schwarzschild", kind == "kerrnewman"))
        for k in range(4):
            d[f"u{k}"] = c.real(f"u{k}")
        if kind == "kerrnewman":
            d["q"] = c.real("q")
        return d
    return f


def met_scen(kind):
    def f(mk, i):
        m = make_metric(mk, i, kind)
        x = x_vec(mk, i)
        v = mk.arr([i["t"], i["r"], i["th"], i["ph"]] + [i[f"u{k}"] for k in range(4)])
        out = {"rs": m.sch_rad, "g": m.metric_covariant(x), "ch": m.christoffels(x), "f": m.f_vec(0.0, v),
               "rs_static": m.schwarzschild_radius(mk.q(i["M"], u.kg))}
        if kind != "schwarzschild":
            a, r, th, M = mk.q(i["a"], u.one), mk.q(i["r"], u.m), mk.q(i["th"], u.rad), mk.q(i["M"], u.kg)
            out["alpha"] = m.alpha(M, a)
            out["sigma"] = m.sigma(r, th, M, a)
            out["delta"] = m.delta(r, M, a, mk.q(i.get("Q", 0), u.C))
        if kind == "kerrnewman":
            out["F"] = m.em_tensor_covariant(x)
            out["A"] = m.em_potential_covariant(x)
        return out
    return f


def vel_scen(kind):
    def f(mk, i):
        from .c03 import metric_on
        o = c02.start_obj(mk, i, "s" if kind == "schwarzschild" else "b")
        m = metric_on(mk, i, kind, o)
        vel = o.velocity(metric=m)
        return {"u": list(vel), "pos": list(o.position())}
    return f


def cart_bl(c):
    d = spin_in(c, cart_in(c))
    c.assume(Or(d["z"] != 0, d["x"] ** 2 + d["y"] ** 2 > al(c, d) ** 2))
    return d


def vel_in(kind):
    from . import c03
    return c03.bh_in(kind)


B = "all values of the quantities; SI against km, hour, degree, km/h, deg/min, g, mC, uC/g, percent"
K = dict(bounds=B)
CASES = [simple_case("cartesian", cart_bl, both(conv_scen("c", 0)), same, functions=("Cartesian.*",), **K),
         simple_case("spherical", lambda c: spin_in(c, sph_in(c)), both(conv_scen("s", 0)), same, functions=("Spherical.*",), **K),
         simple_case("bl", lambda c: spin_in(c, sph_in(c)), both(conv_scen("b", 0)), same, functions=("BoyerLindquist.*",), **K),
         simple_case("cartesian_diff", lambda c: withv(c, cart_bl(c), VC), both(diff_scen("c")), same, functions=("CartesianDifferential.*",), **K),
         simple_case("spherical_diff", lambda c: spin_in(c, withv(c, sph_in(c), VS)), both(diff_scen("s")), same, functions=("SphericalDifferential.*",), **K),
         simple_case("bl_diff", lambda c: spin_in(c, withv(c, sph_in(c), VS)), both(diff_scen("b")), same, functions=("BoyerLindquistDifferential.*",), **K)]
for k in ("schwarzschild", "kerr", "kerrnewman"):
    CASES.append(simple_case("metric_" + k, met_in(k), both(met_scen(k)), same, functions=(k + ".*", "units.primitive"), **K))
CASES.append(simple_case("velocity_kerrnewman", vel_in("kerrnewman"), both(vel_scen("kerrnewman")), same, functions=("*.velocity",), **K))
