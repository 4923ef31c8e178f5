"""C23: Christoffel symbols = Levi-Civita connection."""
from .symcommon import *


def lc_case(setup, name):
    n = setup.n

    def scenario(mk, inp):
        from einsteinpy.symbolic import ChristoffelSymbols
        ar, m = setup.arena(mk, inp)
        ch = run_stubbed(ar, lambda: ChristoffelSymbols.from_metric(m))
        return {"ch": ar.arr(ch), "config": ch.config, "order": str(ch.order), "own": ch.parent_metric is m, "syms": tuple(map(str, ch.symbols())) == tuple(map(str, ar.x))}

    def claims(c, out, inp):
        G = lifted(out["ch"])
        geo = setup.geo(inp)
        g = geo.g
        r = [Fact("config", out["config"] == "ull", out["config"]), Fact("order", out["order"] == "3"), Fact("parent metric", out["own"]), Fact("symbols", out["syms"])]
        for i, j, k in rng(n, 3):
            if j < k:
                r.append(Eq(f"torsion{i}{j}{k}", G[i, j, k], G[i, k, j]))
            # metric compatibility and torsion-freeness determine Gamma
            low = ssum([pm(g[i][l], G[l, j, k]) for l in range(n)])
            r.append(Eq(f"connection{i}{j}{k}", low, geo.first(i, j, k)))
            if j <= k:
                r.append(Eq(f"compatible{i}{j}{k}", geo.dg(i, j, k),
                            ssum([pm(g[l][k], G[l, j, i]) for l in range(n)] + [pm(g[j][l], G[l, k, i]) for l in range(n)])))
        return r
    return sym_case(name, setup.inputs, scenario, claims, bounds=setup.bound(),
                    functions=("symbolic.christoffel.ChristoffelSymbols.from_metric", "symbolic.metric.MetricTensor.lower_config/inv/change_config"))


def conf_case(setup, name, config):
    """Christoffel symbols with other index configurations."""
    n = setup.n

    def scenario(mk, inp):
        from einsteinpy.symbolic import ChristoffelSymbols
        ar, m = setup.arena(mk, inp)
        ch = run_stubbed(ar, lambda: ChristoffelSymbols.from_metric(m).change_config(config))
        return {"ch": ar.arr(ch), "config": ch.config}

    def claims(c, out, inp):
        G = lifted(out["ch"])
        geo = setup.geo(inp)
        h = geo.h
        r = [Fact("config", out["config"] == config)]
        for i, j, k in rng(n, 3):
            def comp(idx, done=()):
                # raise the indices marked 'u' one by one
                for p, ch in enumerate(config):
                    if ch == "u" and p not in done:
                        return ssum([pm(h[idx[p]][l], comp(idx[:p] + (l,) + idx[p + 1:], done + (p,))) for l in range(n)])
                return geo.first(*idx)
            r.append(Eq(f"comp{i}{j}{k}", G[i, j, k], comp((i, j, k))))
        return r
    return sym_case(name, setup.inputs, scenario, claims, bounds=setup.bound() + f", configuration {config}",
                    functions=("symbolic.christoffel.ChristoffelSymbols.change_config", "symbolic.tensor._change_config"))


CASES = [
    lc_case(Setup(2, second=False, truth="full"), "d2"),
    lc_case(Setup(3, second=False, truth=True), "d3"),
    lc_case(Setup(3, second=False, config="uu"), "d3uu"),
    lc_case(Setup(4, second=False), "d4"),
    lc_case(Setup(4, second=False, config="uu"), "d4uu"),
    lc_case(Setup(5, second=False), "d5"),
    conf_case(Setup(3, second=False), "lll", "lll"),
    conf_case(Setup(2, second=False), "uul", "uul"),
    conf_case(Setup(2, second=False), "llu", "llu"),
    conf_case(Setup(2, second=False), "uuu", "uuu"),
    conf_case(Setup(2, second=False, config="uu"), "uu_lll", "lll"),
]
