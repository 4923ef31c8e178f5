"""C24: Riemann tensor of the Levi-Civita connection / of given Christoffel symbols."""
from .symcommon import *

FN = ("symbolic.riemann.RiemannCurvatureTensor.from_metric", "symbolic.riemann.RiemannCurvatureTensor.from_christoffels",
      "symbolic.christoffel.ChristoffelSymbols.from_metric")


def metric_case(setup, name, low=True, **kw):
    n = setup.n

    def scenario(mk, inp):
        from einsteinpy.symbolic import ChristoffelSymbols, RiemannCurvatureTensor
        ar, m = setup.arena(mk, inp)

        def go():
            return RiemannCurvatureTensor.from_metric(m)
        R = run_stubbed(ar, go)
        return {"R": ar.arr(R), "config": R.config, "order": str(R.order), "own": R.parent_metric is m,
                "syms": tuple(map(str, R.symbols())) == tuple(map(str, ar.x))}

    def claims(c, out, inp):
        R = lifted(out["R"])
        geo = setup.geo(inp)
        g = geo.g
        r = [Fact("config", out["config"] == "ulll", out["config"]), Fact("order", out["order"] == "4"),
             Fact("parent metric", out["own"]), Fact("symbols", out["syms"])]
        L = np.empty((n,) * 4, dtype=object)
        for a, b, cc, d in rng(n, 4):
            L[a, b, cc, d] = lift(ssum([pm(g[a][e], R[e, b, cc, d]) for e in range(n)]))
        for a, b, cc, d in rng(n, 4):
            r.append(Eq(f"curvature{a}{b}{cc}{d}", L[a, b, cc, d], geo.riem(a, b, cc, d)))
            if cc <= d:
                r.append(Eq(f"antisym_cd{a}{b}{cc}{d}", R[a, b, cc, d], -R[a, b, d, cc]))
            if a <= b:
                r.append(Eq(f"antisym_ab{a}{b}{cc}{d}", L[a, b, cc, d], -L[b, a, cc, d]))
            if (a, b) < (cc, d):
                r.append(Eq(f"pair{a}{b}{cc}{d}", L[a, b, cc, d], L[cc, d, a, b]))
            if b < cc < d:
                r.append(Eq(f"bianchi{a}{b}{cc}{d}", R[a, b, cc, d] + R[a, cc, d, b] + R[a, d, b, cc], 0))
        return r
    return sym_case(name, setup.inputs, scenario, claims, bounds=setup.bound(), functions=FN, **kw)


def chris_case(n, name, **kw):
    """Arbitrary symmetric connection coefficients: the code only sees their
    values and first derivatives."""
    def inputs(c):
        d = {}
        for i in range(n):
            for j, k in pairs(n):
                d[f"C{i}{j}{k}"] = c.real(f"C{i}{j}{k}", -1, 1)
                for l in range(n):
                    d[f"C{i}{j}{k}d{l}"] = c.real(f"C{i}{j}{k}d{l}", -1, 1)
        return d

    def G(inp, i, j, k):
        return inp[f"C{i}{min(j, k)}{max(j, k)}"]

    def dG(inp, l, i, j, k):
        return inp[f"C{i}{min(j, k)}{max(j, k)}d{l}"]

    def scenario(mk, inp):
        from einsteinpy.symbolic import ChristoffelSymbols, RiemannCurvatureTensor
        ar = Arena(mk, n, truth=True)
        f = {}
        for i in range(n):
            for j, k in pairs(n):
                f[i, j, k] = f[i, k, j] = ar.fn(f"C{i}{j}{k}", G(inp, i, j, k), lambda l, i=i, j=j, k=k: dG(inp, l, i, j, k))
        ch = ChristoffelSymbols([[[f[i, j, k] for k in range(n)] for j in range(n)] for i in range(n)], ar.x)
        R = run_stubbed(ar, lambda: RiemannCurvatureTensor.from_christoffels(ch))
        return {"R": ar.arr(R), "config": R.config, "none": R.parent_metric is None}

    def claims(c, out, inp):
        R = lifted(out["R"])
        r = [Fact("config", out["config"] == "ulll"), Fact("no metric", out["none"])]
        for t, s, a, b in rng(n, 4):
            ref = dG(inp, a, t, s, b) - dG(inp, b, t, s, a)
            for p in range(n):
                ref = ref + G(inp, p, s, b) * G(inp, t, p, a) - G(inp, p, s, a) * G(inp, t, p, b)
            r.append(Eq(f"R{t}{s}{a}{b}", R[t, s, a, b], ref))
        return r
    return sym_case(name, inputs, scenario, claims, functions=FN[1:2],
                    bounds=f"dimension {n}, every symmetric connection with all first derivatives symbolic", **kw)


def lowered_case(setup, name, config, how):
    """from_christoffels of Christoffel symbols in another configuration, with
    the metric inherited or passed."""
    n = setup.n

    def scenario(mk, inp):
        from einsteinpy.symbolic import ChristoffelSymbols, RiemannCurvatureTensor
        ar, m = setup.arena(mk, inp)

        def go():
            ch = ChristoffelSymbols.from_metric(m).change_config(config)
            if how == "passed":
                ch = ChristoffelSymbols(ch.tensor(), ch.syms, config=ch.config)
                return RiemannCurvatureTensor.from_christoffels(ch, parent_metric=m)
            return RiemannCurvatureTensor.from_christoffels(ch)
        R = run_stubbed(ar, go)
        return {"R": ar.arr(R), "config": R.config, "own": R.parent_metric is m}

    def claims(c, out, inp):
        R = lifted(out["R"])
        geo = setup.geo(inp)
        r = [Fact("config", out["config"] == "ulll"), Fact("parent metric", out["own"])]
        for a, b, cc, d in rng(n, 4):
            r.append(Eq(f"curvature{a}{b}{cc}{d}", lift(ssum([pm(geo.g[a][e], R[e, b, cc, d]) for e in range(n)])), geo.riem(a, b, cc, d)))
        return r
    return sym_case(name, setup.inputs, scenario, claims, functions=FN + ("symbolic.tensor._change_config",),
                    bounds=setup.bound() + f", Christoffel symbols given as {config}, metric {how}")


CASES = [
    metric_case(Setup(5, "ldl", off=[], pat=[(i, i) for i in range(5)], coords=(0,)), "d5_one"),
    metric_case(Setup(2, truth="full"), "d2"),
    metric_case(Setup(2, config="uu"), "d2uu"),
    metric_case(Setup(3), "d3", timeout=30),
    chris_case(2, "connection2"),
    chris_case(3, "connection3"),
    chris_case(4, "connection4"),
    lowered_case(Setup(2), "lowered", "lll", "inherited"),
    lowered_case(Setup(2), "lowered_passed", "lll", "passed"),
    lowered_case(Setup(2, "fix1"), "uul_passed", "uul", "passed"),
    metric_case(Setup(4), "d4"),
    metric_case(Setup(4, "fix1", config="uu"), "d4_fixed1", thorough_only=True),
    metric_case(Setup(5, "ldl", off=[]), "d5_diagonal", thorough_only=True),
]
