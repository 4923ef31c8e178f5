"""C03: 4-velocities are normalised to c^2, future directed; positions are (ct, x)."""
from .common import *
from .c02 import start_obj, withv, VC, VS
from .c01 import sph_in

G10 = [(i, j) for i in range(4) for j in range(i, 4)]


def bh_in(kind):
    def f(c):
        d = withv(c, bh_inputs(c, kind != "schwarzschild", kind == "kerrnewman"), VS)
        if kind == "kerrnewman":
            d["q"] = c.real("q")
        c.assume(delta_of(c, d) > 0)
        A = al(c, d)
        # outside the ergosphere, outside the horizon
        c.assume(delta_of(c, d) > A ** 2 * F.sin(d["th"]) ** 2)
        if "a" in d:
            # g_phi_phi < 0 (no closed timelike curves)
            c.assume(((d["r"] ** 2 + A ** 2) ** 2 - delta_of(c, d) * A ** 2 * F.sin(d["th"]) ** 2) > 0)
        return d
    return f


def metric_on(mk, i, kind, obj):
    from einsteinpy.metric import Schwarzschild, Kerr, KerrNewman
    M = mk.q(i["M"], u.kg)
    if kind == "schwarzschild":
        return Schwarzschild(coords=obj, M=M)
    if kind == "kerr":
        return Kerr(coords=obj, M=M, a=mk.q(i["a"], u.one))
    return KerrNewman(coords=obj, M=M, a=mk.q(i["a"], u.one), Q=mk.q(i["Q"], u.C), q=mk.q(i["q"], u.C / u.kg))


def bh_scen(kind):
    def f(mk, i):
        o = start_obj(mk, i, "s" if kind == "schwarzschild" else "b")
        m = metric_on(mk, i, kind, o)
        return out_of(o, m)
    return f


def out_of(o, m):
    from einsteinpy.metric import BaseMetric
    # the same object, used before in another metric
    with earlier():
        o.velocity(metric=BaseMetric(coords=o, M=3e25 * u.kg, metric_cov=lambda x: np.diag([2.0, -1.0, -1.0, -1.0])))
    vel = o.velocity(metric=m)
    pos = o.position()
    return {"u": list(vel), "pos": list(pos), "v_t": o.v_t.to(u.m / u.s).value, "g": m.metric_covariant(pos)}


def bh_claims(c, out, i):
    uu = [R.lift(x) for x in out["u"]]
    g = lifted(out["g"])
    n = sum((g[a, b] * uu[a] * uu[b] for a in range(4) for b in range(4)), R.lift(0))
    cl = [Eq("normalised", n, c.ns["c"] ** 2)]
    # The larger root of a quadratic A u^2 + B u + C with A > 0 > C is positive.
    B = sum((2 * g[0, b] * uu[b] for b in range(1, 4)), R.lift(0))
    C = sum((g[a, b] * uu[a] * uu[b] for a in range(1, 4) for b in range(1, 4)), R.lift(0)) - c.ns["c"] ** 2
    cl.append(Holds("larger root", 2 * g[0, 0] * uu[0] + B >= 0))
    if len(i) <= 9:
        cl.append(Holds("future directed", uu[0] > 0))
    cl += [Eq("v_t is the time component", out["v_t"], uu[0])]
    cl += [Eq(f"u[{k}]", uu[k + 1], i[VS[k]]) for k in range(3)]
    cl += [Eq("x[0]", out["pos"][0], c.ns["c"] * i["t"])]
    cl += [Eq(f"x[{k+1}]", out["pos"][k + 1], i[n]) for k, n in enumerate(("r", "th", "ph"))]
    return cl


# ---- arbitrary constant metric, Cartesian differential
def gen_in(c):
    d = withv(c, {"t": c.real("t"), "x": c.real("x"), "y": c.real("y"), "z": c.real("z")}, VC)
    for a, b in G10:
        d[f"g{a}{b}"] = c.real(f"g{a}{b}")
    v = [None] + [d[n] for n in VC]
    g = {(a, b): d[f"g{min(a, b)}{max(a, b)}"] for a in range(4) for b in range(4)}
    B = sum((2 * g[0, k] * v[k] for k in range(1, 4)), R.lift(0))
    C = sum((g[a, b] * v[a] * v[b] for a in range(1, 4) for b in range(1, 4)), R.lift(0)) - c.ns["c"] ** 2
    c.B, c.C, c.g = B, C, g
    c.assume(g[0, 0] != 0, B * B - 4 * g[0, 0] * C > 0)
    return d


def gen_sample(rng, vals):
    for k in range(4):
        vals[f"g{k}{k}"] = abs(vals[f"g{k}{k}"]) * (1 if k == 0 else -1)


def gen_scen(mk, i):
    from einsteinpy.metric import BaseMetric
    o = start_obj(mk, i, "c")
    m = BaseMetric(coords=o, M=mk.q(1, u.kg), metric_cov=lambda x: gmat(mk, i))
    return out_of(o, m)


def gmat(mk, i):
    rows = [[i[f"g{min(a, b)}{max(a, b)}"] for b in range(4)] for a in range(4)]
    if mk.symbolic:
        return np.array(rows, dtype=object).view(type(mk.arr([0])))
    return np.array(rows, dtype=float)


def gen_claims(c, out, i):
    uu = [R.lift(x) for x in out["u"]]
    g = c.g
    n = sum((g[a, b] * uu[a] * uu[b] for a in range(4) for b in range(4)), R.lift(0))
    return [Eq("normalised", n, c.ns["c"] ** 2),
            Holds("future root", Implies(g[0, 0] > 0, Implies(c.C < 0, uu[0] > 0))),
            Eq("v_t is the time component", out["v_t"], uu[0]),
            Eq("x[0]", out["pos"][0], c.ns["c"] * i["t"])] + \
        [Eq(f"u[{k+1}]", uu[k + 1], i[VC[k]]) for k in range(3)] + \
        [Eq(f"x[{k+1}]", out["pos"][k + 1], i["xyz"[k]]) for k in range(3)]


# ---- wrong coordinate system
def mism_in(c):
    return withv(c, sph_in(c), VS + ("x", "y", "z") + VC)


def mism_scen(mk, i):
    from einsteinpy.metric import Schwarzschild, BaseMetric
    from einsteinpy.utils import CoordinateError
    o = {s: start_obj(mk, i, s) for s in "csb"}
    out = {}
    for s in "csb":
        for s2 in "csb":
            if s != s2:
                m = BaseMetric(coords=o[s2], M=mk.q(1, u.kg), metric_cov=lambda x: flat(mk))
                out[s + s2] = mk.attempt(lambda: o[s].velocity(metric=m), Exception)
    return out


def flat(mk):
    return mk.arr([1, 0, 0, 0, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0, 0, -1]).reshape(4, 4)


def mism_claims(c, out, i):
    return [Fact(f"{k} raises CoordinateError", type(v).__name__ == "CoordinateError", repr(v)) for k, v in out.items()]


FN = ("SphericalDifferential.velocity", "BoyerLindquistDifferential.velocity", "CartesianDifferential.velocity",
      "coordinates.utils.v0", "metric_covariant")
CASES = [simple_case(f"normalised_{k}", bh_in(k), bh_scen(k), bh_claims, functions=FN,
                     bounds="outside horizon and ergosphere, all velocities, M, a, Q, c, G, k_e")
         for k in ("schwarzschild", "kerr", "kerrnewman")]
CASES.append(simple_case("normalised_any_metric", gen_in, gen_scen, gen_claims, functions=FN, sample=staticmethod(gen_sample),
                         bounds="every symmetric 4x4 metric value with g00!=0 and a real root, all velocities"))
CASES.append(simple_case("mismatch", mism_in, mism_scen, mism_claims, functions=FN, bounds="all pairs of coordinate systems"))
