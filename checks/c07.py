"""C07: Christoffel symbols are the Levi-Civita connection of the metric."""
from .common import *


def scen(kind):
    def f(mk, inp):
        m = make_metric(mk, inp, kind)
        x = x_vec(mk, inp)
        out = {"g": m.metric_covariant(x), "ch": m.christoffels(x)}
        if kind == "kerr":
            out["listed"] = str(sorted({tuple(int(n) for n in t) for t in m.nonzero_christoffels()}))
        return out
    return f


def claims(c, out, inp):
    g, ch = lifted(out["g"]), lifted(out["ch"])
    dg = metric_derivs(c, g, xs(inp))
    cl = []
    if "listed" in out:
        known = set(eval(out["listed"]))
        cl += [Eq(f"not listed as nonzero [{i},{j},{k}]", ch[i, j, k], 0) for i, j, k in np.ndindex(4, 4, 4) if (i, j, k) not in known]
        cl.append(Fact("listed symbols do not vanish", all(R.lift(ch[t]).num.d for t in known)))
    for i in range(4):
        for j in range(4):
            for k in range(j + 1, 4):
                cl.append(Eq(f"symmetric[{i},{j},{k}]", ch[i, j, k], ch[i, k, j]))
    for k in range(4):
        for i in range(4):
            for j in range(i, 4):
                rhs = sum((ch[l, k, i] * g[l, j] + ch[l, k, j] * g[i, l] for l in range(4)), R.lift(0))
                cl.append(Eq(f"compatible[{k},{i},{j}]", dg[k, i, j], rhs))
    return cl


def mkcase(kind):
    return simple_case(f"christoffels_{kind}",
                       lambda c: regular(c, bh_inputs(c, kind != "schwarzschild", kind == "kerrnewman")),
                       scen(kind), claims,
                       functions=(f"{kind}.metric_covariant", f"{kind}.christoffels", "BaseMetric.metric_contravariant"),
                       bounds="all M>0, r>0, 0<theta<pi, all t, phi, 0<=a<=1, any Q, any c,G,k_e>0, away from singular points")


CASES = [mkcase("schwarzschild"), mkcase("kerr"), mkcase("kerrnewman")]
