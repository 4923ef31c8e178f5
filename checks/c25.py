"""C25: Ricci tensor and scalar."""
from .symcommon import *

FN = ("symbolic.ricci.RicciTensor.from_metric/from_christoffels/from_riemann", "symbolic.ricci.RicciScalar.from_metric/from_christoffels/from_riemann/from_riccitensor",
      "symbolic.helpers.simplify_sympy_array", "symbolic.tensor._change_config")


def base_case(setup, name, **kw):
    """Against the contractions of the Riemann tensor the package computes
    (which C24 decides) with the exact inverse metric."""
    n = setup.n

    def scenario(mk, inp):
        from einsteinpy.symbolic import RiemannCurvatureTensor, RicciTensor, RicciScalar
        ar, m = setup.arena(mk, inp)
        R, ric, sc = run_stubbed(ar, lambda: (RiemannCurvatureTensor.from_metric(m), RicciTensor.from_metric(m), RicciScalar.from_metric(m)))
        return {"R": ar.arr(R), "ric": ar.arr(ric), "scalar": ar.val(sc.expr), "arr": ar.arr(sc), "config": ric.config,
                "sconfig": sc.config, "order": f"{ric.order}{sc.order}", "own": ric.parent_metric is m, "sown": sc.parent_metric is m}

    def claims(c, out, inp):
        R, ric = lifted(out["R"]), lifted(out["ric"])
        g, h = setup.gh(inp)
        r = [Fact("config", out["config"] == "ll"), Fact("scalar config", out["sconfig"] == ""), Fact("order", out["order"] == "20"),
             Fact("parent metric", out["own"] and out["sown"]), Eq("expr", out["scalar"], out["arr"].item())]
        for b, d in rng(n, 2):
            r.append(Eq(f"ricci{b}{d}", ric[b, d], ssum([R[a, b, a, d] for a in range(n)])))
            if b < d:
                r.append(Eq(f"symmetric{b}{d}", ric[b, d], ric[d, b]))
        r.append(Eq("scalar", out["scalar"], ssum([pm(h[b][d], ric[b, d]) for b in range(n) for d in range(n)])))
        if n == 2:
            for b, d in pairs(2):
                r.append(Eq(f"two_dim{b}{d}", ric[b, d], g[b][d] * lift(out["scalar"]) * Fraction(1, 2)))
        return r
    return sym_case(name, setup.inputs, scenario, claims, bounds=setup.bound(), functions=FN, **kw)


def ways_case(setup, name, ways, **kw):
    """Every constructor gives the tensor from_metric gives."""
    n = setup.n

    def scenario(mk, inp):
        from einsteinpy.symbolic import ChristoffelSymbols, RiemannCurvatureTensor, RicciTensor, RicciScalar
        ar, m = setup.arena(mk, inp)

        def go():
            out = {}
            ch = ChristoffelSymbols.from_metric(m)
            R = RiemannCurvatureTensor.from_metric(m)
            chx = ChristoffelSymbols(ch.tensor(), ch.syms)            # no parent metric
            Rx = RiemannCurvatureTensor(R.tensor(), R.syms)
            Rl = R.change_config("llll")
            Rlx = RiemannCurvatureTensor(Rl.tensor(), R.syms, config="llll")
            ric = RicciTensor.from_metric(m)
            rx = RicciTensor(ric.tensor(), ric.syms)
            todo = {
                "ric_metric": lambda: ric,
                "ric_christoffels": lambda: RicciTensor.from_christoffels(ch),
                "ric_christoffels_passed": lambda: RicciTensor.from_christoffels(chx, parent_metric=m),
                "ric_christoffels_low": lambda: RicciTensor.from_christoffels(ch.change_config("lll")),
                "ric_riemann": lambda: RicciTensor.from_riemann(R),
                "ric_riemann_passed": lambda: RicciTensor.from_riemann(Rx, parent_metric=m),
                "ric_riemann_low": lambda: RicciTensor.from_riemann(Rl),
                "ric_riemann_low_passed": lambda: RicciTensor.from_riemann(Rlx, parent_metric=m),
                "ric_riemann_uull": lambda: RicciTensor.from_riemann(R.change_config("uull")),
                "ric_riemann_lluu": lambda: RicciTensor.from_riemann(R.change_config("lluu")),
                "ric_riemann_uuuu": lambda: RicciTensor.from_riemann(R.change_config("uuuu")),
                "ric_riemann_ulul": lambda: RicciTensor.from_riemann(R.change_config("ulul")),
                "ric_riemann_ulu_passed": lambda: RicciTensor.from_riemann(
                    RiemannCurvatureTensor(R.change_config("ullu").tensor(), R.syms, config="ullu"), parent_metric=m),
                "ric_christoffels_uul": lambda: RicciTensor.from_christoffels(ch.change_config("uul")),
                "sc_christoffels_passed": lambda: RicciScalar.from_christoffels(chx, parent_metric=m),
                "sc_christoffels_low": lambda: RicciScalar.from_christoffels(ch.change_config("lll")),
                "sc_riemann_uull": lambda: RicciScalar.from_riemann(R.change_config("uull")),
                "sc_ricci_ll_passed": lambda: RicciScalar.from_riccitensor(RicciTensor(ric.change_config("lu").tensor(), ric.syms, config="lu"), parent_metric=m),
                "sc_metric": lambda: RicciScalar.from_metric(m),
                "sc_christoffels": lambda: RicciScalar.from_christoffels(ch),
                "sc_riemann": lambda: RicciScalar.from_riemann(R),
                "sc_riemann_low_passed": lambda: RicciScalar.from_riemann(Rlx, parent_metric=m),
                "sc_ricci": lambda: RicciScalar.from_riccitensor(ric),
                "sc_ricci_passed": lambda: RicciScalar.from_riccitensor(rx, parent_metric=m),
                "sc_ricci_ul": lambda: RicciScalar.from_riccitensor(ric.change_config("ul")),
                "sc_ricci_lu": lambda: RicciScalar.from_riccitensor(ric.change_config("lu")),
                "sc_ricci_uu": lambda: RicciScalar.from_riccitensor(ric.change_config("uu")),
            }
            for k, f in todo.items():
                if k in ways:
                    t = f()
                    out[k] = {"v": ar.arr(t), "config": t.config, "own": t.parent_metric is m}
            return out
        return run_stubbed(ar, go)

    def claims(c, out, inp):
        r = []
        for k, o in out.items():
            ref = out["ric_metric" if k.startswith("ric") else "sc_metric"]
            r.append(Fact(k + ".config", o["config"] == ref["config"]))
            r.append(Fact(k + ".parent metric", o["own"]))
            if o is not ref:
                r += EqArr(k, o["v"], ref["v"])
        return r
    return sym_case(name, setup.inputs, scenario, claims, bounds=setup.bound() + ", constructors " + ", ".join(ways), functions=FN, **kw)


ALL = ["ric_metric", "ric_christoffels", "ric_christoffels_passed", "ric_christoffels_low", "ric_riemann", "ric_riemann_passed", "ric_riemann_low",
       "ric_riemann_low_passed", "sc_metric", "sc_christoffels", "sc_riemann", "sc_riemann_low_passed", "sc_ricci", "sc_ricci_passed", "sc_ricci_ul",
       "sc_ricci_lu", "sc_ricci_uu"]
MIXED = ["ric_metric", "ric_riemann_uull", "ric_riemann_lluu", "ric_riemann_uuuu", "ric_riemann_ulul", "ric_riemann_ulu_passed", "ric_christoffels_uul",
         "sc_metric", "sc_christoffels_passed", "sc_christoffels_low", "sc_riemann_uull", "sc_ricci_ll_passed"]

CASES = [
    base_case(Setup(5, "ldl", off=[], pat=[(i, i) for i in range(5)], coords=(0,)), "d5_one"),
    base_case(Setup(2, truth=True), "d2"),
    base_case(Setup(2, config="uu"), "d2uu"),
    base_case(Setup(3), "d3"),
    ways_case(Setup(2), "ways2", ALL),
    ways_case(Setup(2, config="uu"), "ways2uu", ALL),
    ways_case(Setup(2), "ways2_mixed", MIXED),
    ways_case(Setup(3, "fix1"), "ways3", ALL),
    base_case(Setup(4), "d4"),
    base_case(Setup(5, "ldl", off=[]), "d5_diagonal", thorough_only=True),
    base_case(Setup(4, "fix1", config="uu"), "d4_fixed1", thorough_only=True),
]
