"""C11: domain errors: spin outside [0,1] and unsupported coordinate systems."""
from .common import *


def spin_in(c):
    return {"M": c.real("M", 1e24, 6e24, positive=True), "a": c.real("a", -1.5, 2.5), "r": c.real("r", positive=True),
            "th": c.angle("th", polar=True), "Q": c.real("Q", -1e13, 1e13)}


def spin_scen(mk, i):
    from einsteinpy.metric import BaseMetric as B
    M, a, r, th, Q = mk.q(i["M"], u.kg), mk.q(i["a"], u.one), mk.q(i["r"], u.m), mk.q(i["th"], u.rad), mk.q(i["Q"], u.C)
    out = {"alpha": mk.attempt(lambda: B.alpha(M, a), ValueError)}
    ok = not isinstance(out["alpha"], Exception)
    out["ok"] = ok
    out["rs"] = B.schwarzschild_radius(M)
    fs = {"sigma": lambda: B.sigma(r, th, M, a), "delta0": lambda: B.delta(r, M, a), "delta": lambda: B.delta(r, M, a, Q),
          "rho": lambda: B.rho(r, th, M, a), "alpha_raw": lambda: B.alpha(i["M"], i["a"])}
    for k, f in fs.items():
        out[k] = mk.attempt(f, ValueError)
    return out


def spin_claims(c, out, i):
    a = i["a"]
    G, cc, ke = c.ns["G"], c.ns["c"], c.ns["ke"]
    inside = And(a >= 0, a <= 1)
    rs = 2 * G * i["M"] / cc ** 2
    A = a * rs / 2
    cl = [Eq("schwarzschild radius", out["rs"], rs)]
    names = ("alpha", "sigma", "delta0", "delta", "rho", "alpha_raw")
    bad = [isinstance(out[k], Exception) for k in names]
    cl.append(Fact("all or none raise", len(set(bad)) == 1, str(dict(zip(names, bad)))))
    if bad[0]:
        return cl + [Holds("ValueError only outside [0,1]", Not(inside))]
    r, co = i["r"], F.cos(i["th"])
    return cl + [Holds("value only inside [0,1]", inside), Eq("alpha", out["alpha"], A), Eq("alpha raw", out["alpha_raw"], A),
                 Eq("sigma", out["sigma"], r ** 2 + A ** 2 * co ** 2), Eq("delta0", out["delta0"], r ** 2 - rs * r + A ** 2),
                 Eq("delta", out["delta"], r ** 2 - rs * r + A ** 2 + i["Q"] ** 2 * G * ke / cc ** 4),
                 Eq("rho^2", R.lift(out["rho"]) ** 2, r ** 2 + A ** 2 * co ** 2), Holds("rho>=0", R.lift(out["rho"]) >= 0)]


def sys_in(c):
    d = bh_inputs(c, True, True)
    for n in "xyz":
        d[n] = c.real(n)
    for k in range(4):
        d[f"u{k}"] = c.real(f"u{k}")
    return regular(c, d)


def sys_scen(mk, i):
    from einsteinpy.coordinates import Cartesian
    from einsteinpy.metric import Schwarzschild, Kerr, KerrNewman
    co = {"Cartesian": Cartesian(mk.q(i["t"], u.s), mk.q(i["x"], u.m), mk.q(i["y"], u.m), mk.q(i["z"], u.m)),
          "Spherical": sph_coords(mk, i), "BoyerLindquist": bl_coords(mk, i)}
    M, a, Q = mk.q(i["M"], u.kg), mk.q(i["a"], u.one), mk.q(i["Q"], u.C)
    x = x_vec(mk, i)
    v = mk.arr([i["t"], i["r"], i["th"], i["ph"]] + [i[f"u{k}"] for k in range(4)])
    out = {}
    for mn, make, need_ in (("Schwarzschild", lambda s: Schwarzschild(coords=s, M=M), "Spherical"),
                            ("Kerr", lambda s: Kerr(coords=s, M=M, a=a), "BoyerLindquist"),
                            ("KerrNewman", lambda s: KerrNewman(coords=s, M=M, a=a, Q=Q), "BoyerLindquist")):
        for sn, s in co.items():
            if sn == need_:
                continue
            m = make(s)
            for fn, f in (("metric_covariant", lambda: m.metric_covariant(x)), ("metric_contravariant", lambda: m.metric_contravariant(x)),
                          ("christoffels", lambda: m.christoffels(x)), ("f_vec", lambda: m.f_vec(0.0, v)),
                          ("singularities", lambda: m.singularities())):
                out[f"{mn}/{sn}/{fn}"] = mk.attempt(f, Exception)
    return out


def sys_claims(c, out, i):
    return [Fact(f"{k} raises CoordinateError", type(v).__name__ == "CoordinateError", repr(v)) for k, v in out.items()]


CASES = [simple_case("spin", spin_in, spin_scen, spin_claims,
                     functions=("BaseMetric.alpha", "BaseMetric.sigma", "BaseMetric.delta", "BaseMetric.rho", "BaseMetric.schwarzschild_radius"),
                     bounds="every real spin (inside and outside [0,1]), M>0, r>0, any Q", points=6),
         simple_case("systems", sys_in, sys_scen, sys_claims,
                     functions=("*.metric_covariant", "*.christoffels", "*.f_vec", "*.singularities"),
                     bounds="every (metric class, unsupported coordinate system) pair, arbitrary point and parameters")]
