"""C13: the geodesic module's contravariant metrics are the inverses of the
textbook metrics (G = c = M = k_e = 1, signature -+++)."""
from .common import *

KINDS = {"Schwarzschild": (), "Kerr": ("a",), "KerrNewman": ("a", "Q")}


def geo_inputs(c, kind):
    d = {"t": c.real("t"), "r": c.real("r", 2.5, 9, positive=True), "th": c.angle("th", polar=True), "ph": c.angle("ph")}
    if "a" in KINDS[kind]:
        d["a"] = c.real("a", 0.1, 0.7, min=0, max=1)
    if "Q" in KINDS[kind]:
        d["Q"] = c.real("Q", -0.6, 0.6)
    return d


def delta1(d):
    return d["r"] ** 2 - 2 * d["r"] + d.get("a", 0) ** 2 + d.get("Q", 0) ** 2


def textbook(d):
    r, a, Q = d["r"], d.get("a", 0), d.get("Q", 0)
    s, co = F.sincos(d["th"])
    S, D = r ** 2 + a ** 2 * co ** 2, delta1(d)
    q = (2 * r - Q ** 2) / S
    g = np.full((4, 4), R.lift(0), dtype=object)
    g[0, 0] = -(1 - q)
    g[1, 1] = S / D
    g[2, 2] = S
    g[3, 3] = (r ** 2 + a ** 2 + q * a ** 2 * s ** 2) * s ** 2
    g[0, 3] = g[3, 0] = -q * a * s ** 2
    return g


def geodesic_obj(mk, kind, params, pos, mom, time_like=True, cls=None, **kw):
    """A Geodesic whose trajectory is not computed."""
    import einsteinpy.geodesic as G

    class NoTrajectory(getattr(G, cls or "Geodesic")):
        def calculate_trajectory(self, **k):
            return None
    if cls is None:
        kw["time_like"] = time_like
    return NoTrajectory(metric=kind, metric_params=params, position=pos, momentum=mom, **kw)


def params_of(kind, i):
    return tuple(i[n] for n in KINDS[kind]) or (0.0,)


def scen(kind):
    def f(mk, i):
        o = geodesic_obj(mk, kind, params_of(kind, i), [i["r"], i["th"], i["ph"]], [0.0, 0.0, 0.0], False)
        x = mk.arr([i["t"], i["r"], i["th"], i["ph"]])
        return {"g": o.metric(x, *o.metric_params)}
    return f


def inp(kind):
    def f(c):
        d = geo_inputs(c, kind)
        c.assume(delta1(d) > 0)
        return d
    return f


def claims(c, out, i):
    g, t = lifted(out["g"]), textbook(i)
    cl = []
    for a in range(4):
        for b in range(4):
            cl.append(Eq(f"g.cov[{a},{b}]", sum((g[a, k] * t[k, b] for k in range(4)), R.lift(0)), 1 if a == b else 0))
            if a < b:
                cl.append(Eq(f"sym[{a},{b}]", g[a, b], g[b, a]))
    return cl


def lim_scen(big, small):
    def f(mk, i):
        z = 0.0 if not mk.symbolic else R.lift(0)
        j = {**{k: z for k in KINDS[big]}, **i}
        x = mk.arr([i["t"], i["r"], i["th"], i["ph"]])
        out = []
        for k, d in ((big, j), (small, i)):
            o = geodesic_obj(mk, k, params_of(k, d), [i["r"], i["th"], i["ph"]], [0.0, 0.0, 0.0], False)
            out.append(o.metric(x, *o.metric_params))
        return {"g": out}
    return f


B = "M=1 units: all r>0 with Delta>0, 0<theta<pi, all spins 0<=a<=1, all charges"
CASES = [simple_case(k, inp(k), scen(k), claims, bounds=B, functions=(f"geodesic.utils metric {k}", "Geodesic.__init__"))
         for k in KINDS]
CASES += [simple_case(f"{b}_to_{s}", inp(s), lim_scen(b, s),
                      lambda c, out, i: EqArr("limit", lifted(out["g"][0]), lifted(out["g"][1])), bounds=B,
                      functions=(f"geodesic.utils metric {b}",)) for b, s in (("Kerr", "Schwarzschild"), ("KerrNewman", "Kerr"), ("KerrNewman", "Schwarzschild"))]
