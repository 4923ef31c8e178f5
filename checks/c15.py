"""C15: stepping forward by h and back by -h returns to the starting state."""
from symx.umetric import UMetric
from symx import taylor as T
from symx.harness import Near
from .c14 import JetMetric, red
from .common import *

Q, Pm = [f"q{k}" for k in range(4)], [f"p{k}" for k in range(4)]


def inp(c):
    d = {n: c.real(n, -1, 1) for n in Q + Pm}
    d["h"], d["w"] = c.real("h", 0.02, 0.1), c.real("w", 0.3, 1.2)
    R.eng().abbrev = 1
    return d


def wide(rng, v):
    """Steps from tiny to large."""
    if rng.random() < 0.7:
        v["h"] = float(f"{10 ** rng.uniform(-3, 0.2):.4g}")


def two_steps(mk, i, order, n, metric):
    """n steps of h, then n steps of -h; all four copies of the state."""
    from einsteinpy.integrators import GeodesicIntegrator
    q, p = mk.arr([i[k] for k in Q]), mk.arr([i[k] for k in Pm])
    o = GeodesicIntegrator(metric=metric, metric_params=(), q0=q, p0=p, steps=2 * n, delta=i["h"], order=order,
                           omega=i["w"], suppress_warnings=True)
    for _ in range(n):
        o.step()
    mid = o.results[-1]
    o.delta = -i["h"]
    for _ in range(n):
        o.step()
    return {"mid": [list(v) for v in mid], "end": [list(v) for v in o.results[-1]], "n": [o.step_num, len(o.results)]}


def case(name, order, n, bounds, **kw):
    def claims(c, out, i):
        st = [[i[k] for k in Q], [i[k] for k in Pm]] * 2
        return [Eq(f"{'q1 p1 q2 p2'.split()[a]}[{k}]", out["end"][a][k], st[a][k]) for a in range(4) for k in range(4)] + \
            [Fact("one result per step", out["n"] == [2 * n, 2 * n], out["n"])]
    return simple_case(name, inp, lambda mk, i: two_steps(mk, i, order, n, UMetric()), claims, bounds=bounds, angle_pi=False,
                       check_defined=False, points=1, vtol=1e-6, sample=staticmethod(wide),
                       functions=("GeodesicIntegrator.step", "_ord_2.._ord_8", "_flow_A", "_flow_B", "_flow_mixed", "_jacobian_g", "DualNumber"), **kw)


def series_case(name, order, n, coefs, bounds, **kw):
    """Orders 6 and 8: the same through h^n, for metrics given as jets."""
    names = [v for v in dict.fromkeys(coefs.values()) if isinstance(v, str)]

    def sin_(c):
        d = {v: c.real(v, -0.9, 0.9) for v in names}
        d.update({"p0": c.real("p0", -0.9, 0.9), "p1": c.real("p1", -0.9, 0.9), "w": c.real("w", 0.3, 0.9),
                  "h": c.real("h", 1e-3, 2e-3)})
        T.truncate(d["h"], n)
        return d

    def scen(mk, i):
        z = R.lift(0) if mk.symbolic else 0.0
        j = dict(i)
        j.update({k: z for k in Q}, p2=z, p3=z)
        return two_steps(mk, j, order, 1, JetMetric(coefs, i))

    def claims(c, out, i):
        st = [[0] * 4, [i["p0"], i["p1"], 0, 0]] * 2
        return [Near(f"{'q1 p1 q2 p2'.split()[a]}[{k}] h^{m}", T.coeff(R.lift(out["end"][a][k]), i["h"], m), st[a][k] if m == 0 else 0)
                for a in range(4) for k in range(4) for m in range(n + 1)]

    def confirm(mk, i):
        # observed: the return error must stay at rounding level for large steps
        j = dict(i)
        j.update({k: 0.0 for k in Q}, p2=0.0, p3=0.0, h=0.4)
        o = two_steps(mk, j, order, 1, JetMetric(coefs, i))
        st = [[0] * 4, [i["p0"], i["p1"], 0, 0]] * 2
        e = max(abs(o["end"][a][k] - st[a][k]) for a in range(4) for k in range(4))
        return {"broken": bool(e > 1e-10), "what": f"return error {e} after +0.4, -0.4"}
    return simple_case(name, sin_, scen, claims, confirm=staticmethod(confirm), bounds=bounds, angle_pi=False, check_defined=False,
                       points=1, vtol=1e-6, functions=("GeodesicIntegrator.step", "_ord_6", "_ord_8"), **kw)


B = "uninterpreted 4-D metric function with its first derivatives, all states, all h, all omega"
CASES = [case("order2", 2, 1, B), case("order4", 4, 1, B), case("order2_twice", 2, 2, B + ", two steps each way"),
         series_case("order6", 6, 8, red(2), "Taylor coefficients h^0..h^8, g00 quadratic in one coordinate, unit box, tolerance 1e-9"),
         series_case("order8", 8, 9, red(1), "Taylor coefficients h^0..h^9, g00 linear in one coordinate, unit box, tolerance 1e-9"),
         series_case("order8_deep", 8, 9, red(2), "Taylor coefficients h^0..h^9, g00 quadratic in one coordinate", thorough_only=True)]
