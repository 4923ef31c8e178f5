"""C01: position conversions are the standard maps and invert each other."""
from .common import *

RM = dict(functions=("Cartesian.to_spherical", "Cartesian.to_bl", "Spherical.to_cartesian", "Spherical.to_bl",
                     "BoyerLindquist.to_cartesian", "BoyerLindquist.to_spherical", "coordinates.utils.*_novel",
                     "BaseMetric.alpha"))


def cart_in(c):
    d = {"t": c.real("t"), "x": c.real("x"), "y": c.real("y"), "z": c.real("z")}
    c.assume(d["x"] ** 2 + d["y"] ** 2 != 0)
    return d


def spin_in(c, d):
    d["M"] = c.real("M", 1e26, 6e26, positive=True)
    d["a"] = c.real("a", 0.1, 0.9, min=0, max=1)
    return d


def sph_in(c):
    return {"t": c.real("t"), "r": c.real("r", positive=True), "th": c.angle("th", polar=True), "ph": c.angle("ph")}


def cart(mk, i):
    from einsteinpy.coordinates import Cartesian
    return Cartesian(mk.q(i["t"], u.s), mk.q(i.get("x", 0.0), u.m), mk.q(i.get("y", 0.0), u.m), mk.q(i["z"], u.m))


def vals(o):
    if o.system == "Cartesian":
        q = (o.t, o.x, o.y, o.z)
        un = (u.s, u.m, u.m, u.m)
    else:
        q = (o.t, o.r, o.theta, o.phi)
        un = (u.s, u.m, u.rad, u.rad)
    return [v.to(w).value for v, w in zip(q, un)]


def kw(mk, i):
    return dict(M=mk.q(i["M"], u.kg), a=mk.q(i["a"], u.one)) if "M" in i else {}




def conv(o, to, mk, i):
    f = getattr(o, {"s": "to_spherical", "b": "to_bl", "c": "to_cartesian"}[to])
    return f(**kw(mk, i))


def chain(start, *steps):
    def f(mk, i):
        o = {"c": cart, "s": sph_coords, "b": bl_coords}[start](mk, i)
        out = {"system": [], "v": []}
        for s in steps:
            if "M" in i:
                # the same object, asked before about another body
                with earlier():
                    getattr(o, {"s": "to_spherical", "b": "to_bl", "c": "to_cartesian"}[s])(M=3e25 * u.kg, a=0.25 * u.one)
            o = conv(o, s, mk, i)
            out["v"].append(vals(o))
            out["system"].append(o.system)
        return out
    return f


def from_polar(r, th, ph, alpha=0):
    (st, ct), (sp, cp) = F.sincos(th), F.sincos(ph)
    rho = F.sqrt(r * r + alpha * alpha)
    return rho * st * cp, rho * st * sp, r * ct


SYS = {"c": "Cartesian", "s": "Spherical", "b": "BoyerLindquist"}


def claims_for(start, *steps):
    def f(c, out, i):
        cl = []
        A = al(c, i) if "M" in i else 0
        # the reference point in Cartesian coordinates
        if start == "c":
            ref = [i["x"], i["y"], i["z"]]
        else:
            ref = from_polar(i["r"], i["th"], i["ph"], A if start == "b" else 0)
        for k, s in enumerate(steps):
            v = out["v"][k]
            cl.append(Fact(f"step{k}.system", out["system"][k] == SYS[s], out["system"][k]))
            cl.append(Eq(f"step{k}.t", v[0], i["t"]))
            if s == "c":
                got = v[1:]
            else:
                got = from_polar(R.lift(v[1]), R.lift(v[2]), R.lift(v[3]), A if s == "b" else 0)
                cl.append(Holds(f"step{k}.r>=0", R.lift(v[1]) >= 0))
                cl.append(Holds(f"step{k}.sin(theta)>=0", F.sin(v[2]) >= 0))
            cl += [Eq(f"step{k}.{n}", g, r) for n, g, r in zip("xyz", got, ref)]
        if start != "c" and steps[-1] == start:
            v = out["v"][-1]
            cl += [Eq("r", v[1], i["r"]), AngEq("theta", v[2], i["th"]), AngEq("phi", v[3], i["ph"])]
        return cl
    return f


def mk(name, inp, start, *steps, **k):
    return simple_case(name, inp, chain(start, *steps), claims_for(start, *steps), **dict(RM, **k))


NEAR = "all t, x, y, z off the axis x=y=0"
PB = "all t, r>0, 0<theta<pi, all phi"
SP = ", all M>0, 0<=a<=1, c, G>0"


def cart_bl(c):
    d = spin_in(c, cart_in(c))
    c.assume(Or(d["z"] != 0, d["x"] ** 2 + d["y"] ** 2 > al(c, d) ** 2))
    return d


CASES = [
    mk("cart_sph_cart", cart_in, "c", "s", "c", bounds=NEAR),
    mk("sph_cart_sph", sph_in, "s", "c", "s", bounds=PB),
    mk("bl_cart_bl", lambda c: spin_in(c, sph_in(c)), "b", "c", "b", bounds=PB + SP),
    mk("cart_bl_cart", cart_bl, "c", "b", "c", bounds=NEAR + ", off the disc z=0, rho<=alpha" + SP),
    mk("sph_bl_sph", lambda c: spin_in(c, sph_in(c)), "s", "b", "s", bounds=PB + SP),
    mk("bl_sph_bl", lambda c: spin_in(c, sph_in(c)), "b", "s", "b", bounds=PB + SP),
]


# ---- the axis, as exact inputs
def axis_in(spin):
    def f(c):
        d = {"t": c.real("t"), "x": 0.0, "y": 0.0, "z": c.real("z")}
        if spin:
            c.assume(d["z"] != 0)
        return spin_in(c, d) if spin else d
    return f


CASES += [mk("axis_sph", axis_in(False), "c", "s", "c", bounds="all t, z on the axis x = y = 0 (the origin included)"),
          mk("axis_bl", axis_in(True), "c", "b", "c", atol=1e-6, bounds="all t and z != 0 on the axis x = y = 0" + SP),
          mk("axis_all", axis_in(True), "c", "s", "b", "c", atol=1e-6, bounds="all t and z != 0 on the axis x = y = 0" + SP)]
