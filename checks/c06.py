"""C06: contravariant metrics are inverses; perturbations add to the metric."""
from .common import *
from .c05 import inp as bh

G10 = [(i, j) for i in range(4) for j in range(i, 4)]


def scen(kind):
    def f(mk, i):
        m = make_metric(mk, i, kind)
        x = x_vec(mk, i)
        return {"g": m.metric_covariant(x), "gi": m.metric_contravariant(x)}
    return f


def inv_claims(g, gi, tag=""):
    g, gi = lifted(g), lifted(gi)
    cl = []
    for a in range(4):
        for b in range(4):
            cl.append(Eq(f"{tag}g.ginv[{a},{b}]", sum((g[a, k] * gi[k, b] for k in range(4)), R.lift(0)), R.lift(int(a == b))))
    return cl


def sym_mat(mk, i, p):
    rows = [[i[f"{p}{min(a, b)}{max(a, b)}"] for b in range(4)] for a in range(4)]
    return mk.arr([x for r in rows for x in r]).reshape(4, 4)


def pert_in(c):
    d = {k: c.real(k) for k in ("t", "x", "y", "z")}
    for p in "gp":
        for a, b in G10:
            rg = (-0.3, 0.3) if a != b or p == "p" else ((1, 2) if a == 0 else (-2, -1))
            d[f"{p}{a}{b}"] = c.real(f"{p}{a}{b}", *rg)
    return d


def pert_scen(mk, i):
    """Matrices depending on the point: entries g_ab + (a+1) x, p_ab - y."""
    from einsteinpy.metric import BaseMetric
    from einsteinpy.coordinates import Cartesian
    co = Cartesian(mk.q(i["t"], u.s), mk.q(i["x"], u.m), mk.q(i["y"], u.m), mk.q(i["z"], u.m))
    cov = lambda x: sym_mat(mk, i, "g") * x[1]
    per = lambda x: sym_mat(mk, i, "p") * x[2]
    x = co.position()
    m0 = BaseMetric(coords=co, M=mk.q(1, u.kg), metric_cov=cov)
    m1 = BaseMetric(coords=co, M=mk.q(1, u.kg), metric_cov=cov, perturbation=per)
    return {"g0": m0.metric_covariant(x), "g1": m1.metric_covariant(x), "bare": m1.metric_cov(x), "pert": per(x)}


def pert_claims(c, out, i):
    g0, g1, bare, p = (lifted(out[k]) for k in ("g0", "g1", "bare", "pert"))
    want = lambda pre, a, b: i[f"{pre}{min(a, b)}{max(a, b)}"]
    cl = []
    for a in range(4):
        for b in range(4):
            w0 = want("g", a, b) * i["x"]
            cl += [Eq(f"unperturbed[{a},{b}]", g0[a, b], w0), Eq(f"metric_cov[{a},{b}]", bare[a, b], w0),
                   Eq(f"perturbed[{a},{b}]", g1[a, b], w0 + want("p", a, b) * i["y"])]
    return cl


def pinv_in(c):
    d = {k: c.real(k) for k in ("t", "x", "y", "z")}
    for a, b in G10:
        d[f"g{a}{b}"] = c.real(f"g{a}{b}", *((-0.3, 0.3) if a != b else ((1, 2) if a == 0 else (-2, -1))))
        if (a, b) in ((0, 0), (1, 2), (0, 3), (3, 3)):
            d[f"p{a}{b}"] = c.real(f"p{a}{b}", -0.3, 0.3)
        else:
            d[f"p{a}{b}"] = 0
    # invertible sum
    g = [[d[f"g{min(a, b)}{max(a, b)}"] + d[f"p{min(a, b)}{max(a, b)}"] for b in range(4)] for a in range(4)]
    c.assume(det4(g) != 0)
    return d


def det4(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    tot = R.lift(0)
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        tot = tot + (-1) ** j * m[0][j] * det4(minor)
    return tot


def pinv_scen(mk, i):
    from einsteinpy.metric import BaseMetric
    from einsteinpy.coordinates import Cartesian
    i = dict({f"p{a}{b}": 0 for a, b in G10}, **i)
    co = Cartesian(mk.q(i["t"], u.s), mk.q(i["x"], u.m), mk.q(i["y"], u.m), mk.q(i["z"], u.m))
    m = BaseMetric(coords=co, M=mk.q(1, u.kg), metric_cov=lambda x: sym_mat(mk, i, "g"),
                   perturbation=lambda x: sym_mat(mk, i, "p"))
    x = co.position()
    return {"g": m.metric_covariant(x), "gi": m.metric_contravariant(x)}


def pinv_claims(c, out, i):
    g = np.array([[R.lift(i[f"g{min(a, b)}{max(a, b)}"]) + i[f"p{min(a, b)}{max(a, b)}"] for b in range(4)] for a in range(4)], dtype=object)
    return inv_claims(g, out["gi"])


def bh_claims(c, out, i):
    return inv_claims(out["g"], out["gi"])


FN = ("BaseMetric.metric_covariant", "BaseMetric.metric_contravariant")
CASES = [simple_case(k, bh(k), scen(k), bh_claims, functions=FN + (f"{k}.metric_covariant",),
                     bounds="all r>0, 0<theta<pi, M>0, 0<=a<=1, Q, off the horizons")
         for k in ("schwarzschild", "kerr", "kerrnewman")]
CASES += [simple_case("perturbation_adds", pert_in, pert_scen, pert_claims, functions=FN,
                      bounds="arbitrary symmetric metric and perturbation values, position dependent"),
          simple_case("perturbed_inverse", pinv_in, pinv_scen, pinv_claims, functions=FN, vtol=1e-5,
                      bounds="arbitrary symmetric metric value with perturbations in 4 components, invertible sum")]
