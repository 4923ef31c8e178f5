"""C02: velocity conversions are the time derivative of the position maps."""
from .common import *
from .c01 import cart_in, spin_in, sph_in, kw, from_polar, SYS, PB, NEAR, SP


def withv(c, d, names):
    for n in names:
        d[n] = c.real(n)
    return d


VC, VS = ("v_x", "v_y", "v_z"), ("v_r", "v_th", "v_p")


def start_obj(mk, i, s):
    from einsteinpy.coordinates import CartesianDifferential, SphericalDifferential, BoyerLindquistDifferential
    if s == "c":
        return CartesianDifferential(mk.q(i["t"], u.s), mk.q(i["x"], u.m), mk.q(i["y"], u.m), mk.q(i["z"], u.m),
                                     *[mk.q(i[n], u.m / u.s) for n in VC])
    cls = SphericalDifferential if s == "s" else BoyerLindquistDifferential
    return cls(mk.q(i["t"], u.s), mk.q(i["r"], u.m), mk.q(i["th"], u.rad), mk.q(i["ph"], u.rad),
               mk.q(i["v_r"], u.m / u.s), mk.q(i["v_th"], u.rad / u.s), mk.q(i["v_p"], u.rad / u.s))


def vals(o):
    if o.system == "Cartesian":
        q, un = (o.t, o.x, o.y, o.z, o.v_x, o.v_y, o.v_z), (u.s, u.m, u.m, u.m) + (u.m / u.s,) * 3
    else:
        q = (o.t, o.r, o.theta, o.phi, o.v_r, o.v_th, o.v_p)
        un = (u.s, u.m, u.rad, u.rad, u.m / u.s, u.rad / u.s, u.rad / u.s)
    return [v.to(w).value for v, w in zip(q, un)]


def scen(start, *steps):
    def f(mk, i):
        o = start_obj(mk, i, start)
        out = {"system": [], "v": []}
        for s in steps:
            if "M" in i:
                with earlier():
                    getattr(o, {"s": "spherical_differential", "b": "bl_differential", "c": "cartesian_differential"}[s])(M=3e25 * u.kg, a=0.25 * u.one)
            o = getattr(o, {"s": "spherical_differential", "b": "bl_differential", "c": "cartesian_differential"}[s])(**kw(mk, i))
            out["v"].append(vals(o))
            out["system"].append(o.system)
        return out
    return f


def xyz_of(x, s, A):
    """Cartesian point as a function of the coordinates x = (q1, q2, q3)."""
    if s == "c":
        return list(x)
    return list(from_polar(x[0], x[1], x[2], A if s == "b" else 0))


def claims_for(start, *steps):
    def f(c, out, i):
        A = al(c, i) if "M" in i else 0
        if start == "c":
            q0, v0 = [i[n] for n in "xyz"], [i[n] for n in VC]
        else:
            q0, v0 = [i["r"], i["th"], i["ph"]], [i[n] for n in VS]
        X0 = xyz_of(q0, start, A)
        cl = []
        for k, s in enumerate(steps):
            v = [R.lift(x) for x in out["v"][k]]
            cl.append(Fact(f"step{k}.system", out["system"][k] == SYS[s], out["system"][k]))
            cl.append(Eq(f"step{k}.t", v[0], i["t"]))
            q, w = v[1:4], v[4:7]
            X = xyz_of(q, s, A)
            for n in range(3):
                cl.append(Eq(f"step{k}.{'xyz'[n]}", X[n], X0[n]))
            for n in range(3):
                dq = sum((c.diff(q[n], z) * zv for z, zv in zip(q0, v0)), R.lift(0))
                cl.append(Eq(f"step{k}.velocity is d/dt of coordinate {n}", w[n], dq))
            if s != "c":
                cl.append(Holds(f"step{k}.r>=0", q[0] >= 0))
                cl.append(Holds(f"step{k}.sin(theta)>=0", F.sin(q[1]) >= 0))
        return cl
    return f


def case(name, inp, start, *steps, **k):
    return simple_case(name, inp, scen(start, *steps), claims_for(start, *steps),
                       functions=("CartesianDifferential.*_differential", "SphericalDifferential.*_differential",
                                  "BoyerLindquistDifferential.*_differential", "coordinates.utils.*"), **k)


def bl_in(c):
    return spin_in(c, withv(c, sph_in(c), VS))


def cart_bl(c):
    d = spin_in(c, withv(c, cart_in(c), VC))
    c.assume(Or(d["z"] != 0, d["x"] ** 2 + d["y"] ** 2 > al(c, d) ** 2))
    return d


AV = ", all velocities"
CASES = [
    case("cart_sph_cart", lambda c: withv(c, cart_in(c), VC), "c", "s", "c", bounds=NEAR + AV),
    case("sph_cart_sph", lambda c: withv(c, sph_in(c), VS), "s", "c", "s", bounds=PB + AV),
    case("cart_bl_cart", cart_bl, "c", "b", "c", bounds=NEAR + ", off the disc" + SP + AV),
    case("bl_cart_bl", bl_in, "b", "c", "b", bounds=PB + SP + AV),
    case("sph_bl_sph", bl_in, "s", "b", "s", bounds=PB + SP + AV),
    case("bl_sph_bl", bl_in, "b", "s", "b", bounds=PB + SP + AV),
]
