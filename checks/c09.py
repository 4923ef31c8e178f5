"""C09: Kerr-Newman electromagnetic potential and field."""
from .common import *
from .c05 import inp as bh


def scen(mk, i):
    m = make_metric(mk, i, "kerrnewman")
    x = x_vec(mk, i)
    return {"g": m.metric_covariant(x), "A": m.em_potential_covariant(x), "Au": m.em_potential_contravariant(x),
            "F": m.em_tensor_covariant(x), "Fu": m.em_tensor_contravariant(x)}


def claims(c, out, i):
    g, A, Au, Fl, Fu = (lifted(out[k]) for k in ("g", "A", "Au", "F", "Fu"))
    r, (s, co) = i["r"], F.sincos(i["th"])
    al_ = al(c, i)
    S = r ** 2 + al_ ** 2 * co ** 2
    rQ = i["Q"] * F.sqrt(c.ns["G"] * c.ns["ke"]) / c.ns["c"] ** 2
    Z = R.lift(0)
    cl = EqArr("potential", A, np.array([rQ * r / S, Z, Z, -al_ * rQ * r * s ** 2 / S], dtype=object))
    X = xs(i)
    for a in range(4):
        cl.append(Eq(f"lowered potential[{a}]", sum((g[a, b] * Au[b] for b in range(4)), Z), A[a]))
        for b in range(4):
            cl.append(Eq(f"antisymmetric[{a},{b}]", Fl[a, b], -Fl[b, a]))
            cl.append(Eq(f"antisymmetric contravariant[{a},{b}]", Fu[a, b], -Fu[b, a]))
            low = sum((g[a, k] * Fu[k, l] * g[l, b] for k in range(4) for l in range(4)), Z)
            cl.append(Eq(f"lowered field[{a},{b}]", low, Fl[a, b]))
            dA = c.diff(A[b], X[a]) - c.diff(A[a], X[b])
            cl.append(Eq(f"F=dA[{a},{b}]", Fl[a, b], dA))
            cl.append(Eq(f"F=dA up to sign[{a},{b}]", Fl[a, b] ** 2, dA ** 2))
    return cl


CASES = [simple_case("field", bh("kerrnewman"), scen, claims,
                     functions=("KerrNewman.em_potential_covariant", "KerrNewman.em_potential_contravariant",
                                "KerrNewman.em_tensor_covariant", "KerrNewman.em_tensor_contravariant"),
                     bounds="all r>0, 0<theta<pi off the horizons, M>0, 0<=a<=1, any Q")]
