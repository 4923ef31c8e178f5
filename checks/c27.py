"""C27: Einstein and stress-energy tensors."""
from .symcommon import *

FN = ("symbolic.einstein.EinsteinTensor.from_metric", "symbolic.stress_energy_momentum.StressEnergyMomentumTensor.from_metric",
      "symbolic.ricci.RicciTensor.from_metric", "symbolic.ricci.RicciScalar.from_riccitensor")


def case(setup, name, **kw):
    n = setup.n

    def inputs(c):
        d = setup.inputs(c)
        d["cc"] = c.real("cc", 0.5, 2, positive=True)
        d["GG"] = c.real("GG", 0.5, 2, positive=True)
        d["LL"] = c.real("LL", -1, 1)
        return d

    def scenario(mk, inp):
        from einsteinpy.symbolic import RicciTensor, RicciScalar, EinsteinTensor, StressEnergyMomentumTensor
        from einsteinpy.symbolic import constants as K
        ar, m = setup.arena(mk, inp)
        ar.symval.update({K.c: inp["cc"], K.G: inp["GG"], K.Cosmo_Const: inp["LL"]})

        def go():
            return RicciTensor.from_metric(m), RicciScalar.from_metric(m), EinsteinTensor.from_metric(m), StressEnergyMomentumTensor.from_metric(m)
        ric, sc, E, T = run_stubbed(ar, go)
        return {"ric": ar.arr(ric), "sc": ar.val(sc.expr), "E": ar.arr(E), "T": ar.arr(T), "config": E.config + "," + T.config,
                "own": E.parent_metric is m and T.parent_metric is m}

    def claims(c, out, inp):
        ric, E, T = (lifted(out[k]) for k in ("ric", "E", "T"))
        g, h = setup.gh(inp)
        sc = lift(out["sc"])
        from symx import funcs as F
        r = [Fact("config", out["config"] == "ll,ll"), Fact("parent metric", out["own"])]
        for a, b in rng(n, 2):
            r.append(Eq(f"einstein{a}{b}", E[a, b], ric[a, b] - sc * g[a][b] * Fraction(1, 2)))
            if a < b:
                r.append(Eq(f"symmetric{a}{b}", E[a, b], E[b, a]))
            r.append(Eq(f"field_eq{a}{b}", T[a, b] * 8 * F.PI() * inp["GG"] / inp["cc"].ipow(4), E[a, b] - lift(pm(g[a][b], inp["LL"]))))
        r.append(Eq("trace", ssum([pm(h[a][b], E[a, b]) for a in range(n) for b in range(n)]), sc * Fraction(2 - n, 2)))
        if n == 2:
            for a, b in pairs(2):
                r.append(Eq(f"two_dim{a}{b}", E[a, b], 0))
        return r
    return sym_case(name, inputs, scenario, claims, bounds=setup.bound() + ", all c > 0, G > 0, Lambda", functions=FN, **kw)


CASES = [
    case(Setup(5, "ldl", off=[], pat=[(i, i) for i in range(5)], coords=(0,)), "d5_one"),
    case(Setup(2, truth=True), "d2"),
    case(Setup(2, config="uu"), "d2uu"),
    case(Setup(3), "d3"),
    case(Setup(4, "ldl", off=[]), "d4_diagonal"),
    case(Setup(4, "fix1"), "d4_fixed1", thorough_only=True),
    case(Setup(4), "d4", thorough_only=True),
    case(Setup(4, "fix0", config="uu"), "d4_fixed0uu", thorough_only=True),
    case(Setup(5, "ldl", off=[]), "d5_diagonal", thorough_only=True),
]
