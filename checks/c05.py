"""C05: the metrics are the textbook solutions and reduce to one another."""
from .common import *


def closed_form(c, d, kind):
    """Textbook components, coordinates (t, r, theta, phi), signature +---."""
    G, cc = c.ns["G"], c.ns["c"]
    r, (s, co) = d["r"], F.sincos(d["th"])
    rs = 2 * G * d["M"] / cc ** 2
    g = np.full((4, 4), R.lift(0), dtype=object)
    if kind == "schwarzschild":
        g[0, 0] = cc ** 2 * (1 - rs / r)
        g[1, 1] = -r / (r - rs)
        g[2, 2] = -r ** 2
        g[3, 3] = -r ** 2 * s ** 2
        return g
    A = al(c, d)
    rQ2 = d["Q"] ** 2 * G * c.ns["ke"] / cc ** 4 if kind == "kerrnewman" else 0
    S = r ** 2 + A ** 2 * co ** 2
    D = delta_of(c, d)
    q = (rs * r - rQ2) / S
    g[0, 0] = cc ** 2 * (1 - q)
    g[1, 1] = -S / D
    g[2, 2] = -S
    g[3, 3] = -(r ** 2 + A ** 2 + q * A ** 2 * s ** 2) * s ** 2
    g[0, 3] = g[3, 0] = cc * q * A * s ** 2
    return g


def inp(kind):
    return lambda c: regular(c, bh_inputs(c, kind != "schwarzschild", kind == "kerrnewman"))


def scen(kind):
    def f(mk, i):
        m = make_metric(mk, i, kind)
        return {"g": m.metric_covariant(x_vec(mk, i)), "rs": m.sch_rad, "gc": m.metric_cov(x_vec(mk, i))}
    return f


def claims(kind):
    def f(c, out, i):
        cf = closed_form(c, i, kind)
        return EqArr("g", lifted(out["g"]), cf) + EqArr("metric_cov", lifted(out["gc"]), cf) + \
            [Eq("schwarzschild radius", out["rs"], 2 * c.ns["G"] * i["M"] / c.ns["c"] ** 2)]
    return f


def lim_scen(big, small, zero):
    def f(mk, i):
        x = x_vec(mk, i)
        j = dict(i)
        j.update({z: mk.arr([0])[0] if not mk.symbolic else R.lift(0) for z in zero})
        m1, m2 = make_metric(mk, j, big), make_metric(mk, i, small)
        v = mk.arr(list(x) + [i["u0"], i["u1"], i["u2"], i["u3"]])
        return {"g": [m1.metric_covariant(x), m2.metric_covariant(x)],
                "ginv": [m1.metric_contravariant(x), m2.metric_contravariant(x)],
                "ch": [m1.christoffels(x), m2.christoffels(x)],
                "f": [m1.f_vec(0.0, v), m2.f_vec(0.0, v)]}
    return f


def lim_in(kind):
    def f(c):
        d = inp(kind)(c)
        for k in range(4):
            d[f"u{k}"] = c.real(f"u{k}")
        return d
    return f


def lim_claims(c, out, i):
    return [EqArr(k, lifted(v[0]), lifted(v[1])) for k, v in out.items()]


B = "all t, r>0, 0<theta<pi, phi, M>0, 0<=a<=1, Q, c, G, k_e>0, off the horizons"
CASES = [simple_case(k, inp(k), scen(k), claims(k), bounds=B,
                     functions=(f"{k}.metric_covariant", "BaseMetric.sigma", "BaseMetric.delta", "BaseMetric.rho", "BaseMetric.alpha"))
         for k in ("schwarzschild", "kerr", "kerrnewman")]
CASES += [simple_case("kerr_a0", lim_in("schwarzschild"), lim_scen("kerr", "schwarzschild", ["a"]), lim_claims, bounds=B,
                      functions=("Kerr.*", "Schwarzschild.*")),
          simple_case("kerrnewman_q0", lim_in("kerr"), lim_scen("kerrnewman", "kerr", ["Q"]), lim_claims, bounds=B,
                      functions=("KerrNewman.*", "Kerr.*")),
          simple_case("kerrnewman_a0_q0", lim_in("schwarzschild"), lim_scen("kerrnewman", "schwarzschild", ["a", "Q"]), lim_claims, bounds=B,
                      functions=("KerrNewman.*", "Schwarzschild.*"))]
CASES.insert(0, CONSTANTS)
