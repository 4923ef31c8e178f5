"""C08: f_vec is the right-hand side of the geodesic equation (plus Lorentz force)."""
from .common import *
from .c05 import inp as bh


def inp(kind):
    def f(c):
        d = bh(kind)(c)
        for k in range(4):
            d[f"u{k}"] = c.real(f"u{k}", 0.2, 2.0)
        if kind == "kerrnewman":
            d["q"] = c.real("q", 0.5, 2.0)
        return d
    return f


def scen(kind):
    def f(mk, i):
        m = make_metric(mk, i, kind)
        x = x_vec(mk, i)
        vec = mk.arr([i["t"], i["r"], i["th"], i["ph"], i["u0"], i["u1"], i["u2"], i["u3"]])
        out = {"g": m.metric_covariant(x), "f": m.f_vec(0.0, vec)}
        if kind == "kerrnewman":
            out["F"] = m.em_tensor_covariant(x)
        return out
    return f


def claims(c, out, i):
    g, f = lifted(out["g"]), lifted(out["f"])
    uu = [i[f"u{k}"] for k in range(4)]
    dg = metric_derivs(c, g, xs(i))
    cl = [Fact("shape", f.shape == (8,), str(f.shape))]
    cl += [Eq(f"dx[{k}]", f[k], uu[k]) for k in range(4)]
    half = Fraction(1, 2)
    for a in range(4):
        lhs = sum((g[a, b] * f[4 + b] for b in range(4)), R.lift(0))
        rhs = R.lift(0)
        for j in range(4):
            for k in range(4):
                rhs = rhs - (dg[j, a, k] - half * dg[a, j, k]) * uu[j] * uu[k]
        if "F" in out:
            Fc = lifted(out["F"])
            rhs = rhs + i["q"] * sum((Fc[a, b] * uu[b] for b in range(4)), R.lift(0))
        cl.append(Eq(f"geodesic equation[{a}]", lhs, rhs))
    return cl


CASES = [simple_case(k, inp(k), scen(k), claims, functions=(f"{k}.f_vec", f"{k}.christoffels", f"{k}.metric_covariant"),
                     bounds="all positions r>0, 0<theta<pi off the horizons, all 4-velocities, M>0, 0<=a<=1, Q, q")
         for k in ("schwarzschild", "kerr", "kerrnewman")]
