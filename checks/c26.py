"""C26: Weyl and Schouten tensors."""
from .symcommon import *

FN = ("symbolic.weyl.WeylTensor.from_metric", "symbolic.schouten.SchoutenTensor.from_metric", "symbolic.riemann.RiemannCurvatureTensor.change_config",
      "symbolic.ricci.RicciScalar.from_riccitensor", "symbolic.ricci.RicciTensor.from_riemann")


def weyl_case(setup, name, **kw):
    n = setup.n

    def scenario(mk, inp):
        from einsteinpy.symbolic import RiemannCurvatureTensor, WeylTensor, SchoutenTensor
        ar, m = setup.arena(mk, inp)
        R, C, P = run_stubbed(ar, lambda: (RiemannCurvatureTensor.from_metric(m), WeylTensor.from_metric(m), SchoutenTensor.from_metric(m)))
        return {"R": ar.arr(R), "C": ar.arr(C), "P": ar.arr(P), "config": C.config, "pconfig": P.config, "own": C.parent_metric is m,
                "pown": P.parent_metric is m}

    def claims(c, out, inp):
        R, C, P = (lifted(out[k]) for k in "RCP")
        g, h = setup.gh(inp)
        r = [Fact("config", out["config"] == "llll" and out["pconfig"] == "ll"), Fact("parent metric", out["own"] and out["pown"])]
        low = np.empty((n,) * 4, dtype=object)
        for a, b, cc, d in rng(n, 4):
            low[a, b, cc, d] = lift(ssum([pm(g[a][e], R[e, b, cc, d]) for e in range(n)]))
            # Riemann = Weyl + Schouten ^ g
            kn = ssum([pm(g[a][cc], P[b, d]), -lift(pm(g[a][d], P[b, cc])), pm(g[b][d], P[a, cc]), -lift(pm(g[b][cc], P[a, d]))])
            r.append(Eq(f"decomposition{a}{b}{cc}{d}", low[a, b, cc, d], C[a, b, cc, d] + kn))
            if a <= b:
                r.append(Eq(f"antisym_ab{a}{b}{cc}{d}", C[a, b, cc, d], -C[b, a, cc, d]))
            if cc <= d:
                r.append(Eq(f"antisym_cd{a}{b}{cc}{d}", C[a, b, cc, d], -C[a, b, d, cc]))
            if (a, b) < (cc, d):
                r.append(Eq(f"pair{a}{b}{cc}{d}", C[a, b, cc, d], C[cc, d, a, b]))
        for b, d in rng(n, 2):
            r.append(Eq(f"trace{b}{d}", ssum([pm(h[a][cc], C[a, b, cc, d]) for a in range(n) for cc in range(n)]), 0))
        return r
    return sym_case(name, setup.inputs, scenario, claims, bounds=setup.bound(), functions=FN, **kw)


def schouten_case(setup, name, **kw):
    n = setup.n

    def scenario(mk, inp):
        from einsteinpy.symbolic import RicciTensor, RicciScalar, SchoutenTensor, WeylTensor
        ar, m = setup.arena(mk, inp)

        def go():
            w = mk.attempt(lambda: WeylTensor.from_metric(m), ValueError) if n <= 3 else None
            return RicciTensor.from_metric(m), RicciScalar.from_metric(m), mk.attempt(lambda: SchoutenTensor.from_metric(m), ValueError), w
        ric, sc, P, w = run_stubbed(ar, go)
        bad = lambda t: isinstance(t, Exception)
        return {"ric": ar.arr(ric), "sc": ar.val(sc.expr), "P": P if bad(P) else ar.arr(P), "pconfig": None if bad(P) else P.config,
                "w": None if w is None else w if bad(w) else ar.arr(w), "wconfig": None if w is None or bad(w) else w.config}

    def claims(c, out, inp):
        if n < 3:
            return [Fact("Schouten rejected below 3 dimensions", isinstance(out["P"], ValueError)),
                    Fact("Weyl rejected below 3 dimensions", isinstance(out["w"], ValueError))]
        ric, P = lifted(out["ric"]), lifted(out["P"])
        g, h = setup.gh(inp)
        r = [Fact("config", out["pconfig"] == "ll")]
        for a, b in rng(n, 2):
            r.append(Eq(f"schouten{a}{b}", P[a, b] * (n - 2), ric[a, b] - lift(out["sc"]) * g[a][b] * Fraction(1, 2 * (n - 1))))
        if n == 3:
            r.append(Fact("weyl config", out["wconfig"] == "llll", str(out["wconfig"])))
            r += EqArr("weyl3", lifted(out["w"]), np.zeros((3,) * 4, dtype=int))
        return r
    return sym_case(name, setup.inputs, scenario, claims, bounds=setup.bound(), functions=FN, **kw)


CASES = [
    schouten_case(Setup(2), "d2"),
    schouten_case(Setup(3), "d3"),
    schouten_case(Setup(3, "fix1", config="uu"), "d3uu"),
    weyl_case(Setup(4, "ldl", off=[(3, 0)]), "d4_block"),
    weyl_case(Setup(5, "ldl", off=[], pat=[(i, i) for i in range(5)], coords=(0,)), "d5_one"),
    weyl_case(Setup(4, "fix1"), "d4_fixed1", thorough_only=True),
    weyl_case(Setup(4), "d4", thorough_only=True),
    weyl_case(Setup(5, "ldl", off=[]), "d5_diagonal", thorough_only=True),
    weyl_case(Setup(4, "fix0", config="uu"), "d4_fixed0uu", thorough_only=True),
]
