"""C28: change of index configuration."""
import itertools

from .symcommon import *

CLS = {"GenericVector": 1, "RicciTensor": 2, "EinsteinTensor": 2, "StressEnergyMomentumTensor": 2, "SchoutenTensor": 2,
       "ChristoffelSymbols": 3, "RiemannCurvatureTensor": 4, "WeylTensor": 4}


def confs(rank):
    return ["".join(p) for p in itertools.product("ul", repeat=rank)]


def comp_inputs(c, n, rank, pre="T"):
    return {f"{pre}" + "".join(map(str, i)): c.real(f"{pre}" + "".join(map(str, i)), -2, 2) for i in np.ndindex(*([n] * rank))}


def nested(f, n, rank, idx=()):
    if len(idx) == rank:
        return f(idx)
    return [nested(f, n, rank, idx + (i,)) for i in range(n)]


def convert(T, old, new, g, h, n):
    """Oracle: every changed index contracted with g or its inverse."""
    rank = len(old)
    for p in range(rank):
        if old[p] == new[p]:
            continue
        m = h if new[p] == "u" else g
        out = np.empty((n,) * rank, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = lift(ssum([pm(m[i[p]][l], T[i[:p] + (l,) + i[p + 1:]]) for l in range(n)]))
        T = out
    return T


def conf_case(cls, setup, name, pairs_, how="inherited", **kw):
    n, rank = setup.n, CLS[cls]

    def inputs(c):
        d = ldl_inputs(c, n, setup.off) if setup.kind == "ldl" else {}
        d.update(comp_inputs(c, n, rank))
        return d

    def scenario(mk, inp):
        import einsteinpy.symbolic as S
        K = getattr(S, cls)
        ar, m = setup.arena(mk, inp)
        T = nested(lambda i: ar.sy("T" + "".join(map(str, i)), inp["T" + "".join(map(str, i))]), n, rank)
        out = {}
        m2 = S.MetricTensor([[1 if i == j else 0 for j in range(n)] for i in range(n)], ar.x)

        def go():
            # the same tensor, converted before with another metric
            t = K(T, ar.x, config=pairs_[0][0], parent_metric=m)
            with earlier():
                t.change_config(pairs_[0][1], metric=m2)
            for old, new in pairs_:
                # 'passed': the metric argument takes precedence over the parent metric
                if how == "inherited" and (old, new) == pairs_[0]:
                    r = t.change_config(new)
                    back = r.change_config(old)
                elif how == "inherited":
                    t = K(T, ar.x, config=old, parent_metric=m)
                    r = t.change_config(new)
                    back = r.change_config(old)
                else:
                    t = K(T, ar.x, config=old, parent_metric=m2 if how == "overrides" else None)
                    r = t.change_config(new, metric=m)
                    back = r.change_config(old, metric=m)
                out[f"{old}>{new}"] = {"v": ar.arr(r), "back": ar.arr(back), "kind": type(r).__name__, "bkind": type(back).__name__,
                                       "config": r.config, "bconfig": back.config, "own": r.parent_metric is m and back.parent_metric is m,
                                       "kept": str(ar.arr(t).ravel()[0] is not None and t.config == old)}
            bad = {}
            for w in ("u" * (rank + 1), "l" * (rank - 1), "x" * rank):
                bad[w] = mk.attempt(lambda: K(T, ar.x, config=pairs_[0][0], parent_metric=m).change_config(w), Exception)
            bad["orphan"] = mk.attempt(lambda: K(T, ar.x, config=pairs_[0][0]).change_config(pairs_[0][1]), Exception)
            out["bad"] = {k: "raise" if isinstance(v, Exception) else "no error" for k, v in bad.items()}
        run_stubbed(ar, go)
        return out

    def claims(c, out, inp):
        g, h = setup.gh(inp)
        T = np.empty((n,) * rank, dtype=object)
        for i in np.ndindex(*T.shape):
            T[i] = inp["T" + "".join(map(str, i))]
        r = []
        for k, v in out["bad"].items():
            r.append(Fact(f"{k} rejected", v == "raise", v))
        for old, new in pairs_:
            o = out[f"{old}>{new}"]
            L = f"{old}>{new}"
            r += [Fact(L + ".kind", o["kind"] == cls and o["bkind"] == cls, o["kind"]), Fact(L + ".config", o["config"] == new and o["bconfig"] == old, o["config"]),
                  Fact(L + ".parent metric", o["own"]), Fact(L + ".input kept", o["kept"] == "True")]
            r += EqArr(L, lifted(o["v"]), convert(T, old, new, g, h, n))
            r += EqArr(L + ".back", lifted(o["back"]), T)
        return r
    return sym_case(name, inputs, scenario, claims, functions=(f"symbolic.{cls}.change_config", "symbolic.tensor._change_config", "symbolic.metric.MetricTensor.lower_config/inv"),
                    bounds=f"dimension {n}, rank {rank}, all components, {setup.bound().split(', all first')[0]}, configurations "
                           + " ".join(f"{a}>{b}" for a, b in pairs_) + f", metric {how}", **kw)


def boost(n, way=1):
    import sympy
    m = [[sympy.Rational(5, 4), way * sympy.Rational(3, 4)], [way * sympy.Rational(3, 4), sympy.Rational(5, 4)]]
    return [[m[i][j] if i < 2 and j < 2 else sympy.Integer(int(i == j)) for j in range(n)] for i in range(n)]


def claims2(out, G, H, low):
    return EqArr("low", out["low"], G) + EqArr("lowinv", out["lowinv"], H) + EqArr("invinv", out["invinv"], G if low else H)


def metric_case(setup, name):
    n = setup.n

    def inputs(c):
        return ldl_inputs(c, n, setup.off) if setup.kind == "ldl" else {"z": c.real("z")}

    def scenario(mk, inp):
        from einsteinpy.symbolic import MetricTensor
        ar, m = setup.arena(mk, inp)

        def go():
            other = "uu" if m.config == "ll" else "ll"
            a = m.change_config(other)
            b = m.inv()
            lo = m.lower_config()
            # the transformed metric is a metric of its own, with its own inverse
            lin = {}
            if setup.truth:
                B = m.lorentz_transform(boost(n))
                bi = B.inv()
                lin = {"boosted": ar.arr(B), "boostinv": ar.arr(bi), "again": ar.arr(m.inv()), "bconfigs": f"{B.config},{bi.config}"}
            return {**lin, "m": ar.arr(m), "changed": ar.arr(a), "inv": ar.arr(b), "low": ar.arr(lo), "invinv": ar.arr(b.inv()), "lowinv": ar.arr(lo.inv()),
                    "configs": ",".join([a.config, b.config, lo.config, b.inv().config, m.change_config(m.config).config]),
                    "kinds": all(type(t) is MetricTensor for t in (a, b, lo)), "own": a.parent_metric is a,
                    "ul": mk.attempt(lambda: m.change_config("ul"), Exception), "lu": mk.attempt(lambda: m.change_config("lu"), Exception),
                    "bad": mk.attempt(lambda: m.change_config("lll"), Exception)}
        return run_stubbed(ar, go)

    def claims(c, out, inp):
        g, h = setup.gh(inp)
        low = setup.config == "ll"
        o = "uu" if low else "ll"
        r = [Fact("configs", out["configs"] == ",".join([o, o, "ll", setup.config, setup.config]), out["configs"]), Fact("kinds", out["kinds"]), Fact("own metric", out["own"])]
        r += [Fact(k + " rejected", isinstance(out[k], ValueError)) for k in ("ul", "lu", "bad")]
        G, H = np.array(g, dtype=object), np.array(h, dtype=object)
        r += EqArr("m", out["m"], G if low else H) + EqArr("changed", out["changed"], H if low else G) + EqArr("inv", out["inv"], H if low else G)
        if not setup.truth:
            return r + claims2(out, G, H, low)
        r.append(Fact("boost configs", out["bconfigs"] == f"{setup.config},{o}", out["bconfigs"]))
        L = np.array([[Fraction(str(x)) for x in row] for row in boost(n)], dtype=object)
        V = [[Fraction(str(x)) for x in row] for row in boost(n, -1)]     # its inverse
        W = np.array(V, dtype=object)
        up = lambda a: L.dot(a).dot(L.T)
        dn = lambda a: W.T.dot(a).dot(W)
        r += EqArr("boosted", lifted(out["boosted"]), dn(G) if low else up(H)) + EqArr("boosted inverse", lifted(out["boostinv"]), up(H) if low else dn(G))
        r += EqArr("inverse kept", out["again"], H if low else G)
        return r + claims2(out, G, H, low)
    return sym_case(name, inputs, scenario, claims, functions=("symbolic.metric.MetricTensor.change_config/inv/lower_config",),
                    bounds=f"dimension {n}, every metric value matrix with nonzero leading minors, given as {setup.config}")


def S2(n, **k):
    return Setup(n, second=False, **k)


ALLP = lambda r: [(a, b) for a in confs(r) for b in confs(r) if a != b]
FROM = lambda o: [(o, b) for b in confs(len(o)) if b != o]

CASES = [
    metric_case(S2(2, truth=True), "metric2"), metric_case(S2(3, config="uu", truth=True), "metric3uu"), metric_case(S2(4), "metric4"), metric_case(S2(4, config="uu"), "metric4uu"),
    conf_case("GenericVector", S2(4), "vector", ALLP(1)),
    conf_case("GenericVector", S2(3, config="uu"), "vector_passed", ALLP(1), "passed"),
    conf_case("GenericVector", S2(2), "vector_overrides", ALLP(1), "overrides"),
    conf_case("RicciTensor", S2(2), "ricci", ALLP(2)),
    conf_case("RicciTensor", S2(4), "ricci4", FROM("ll")),
    conf_case("RicciTensor", S2(2), "ricci_overrides", FROM("ll"), "overrides"),
    conf_case("EinsteinTensor", S2(2, config="uu"), "einstein", ALLP(2)),
    conf_case("EinsteinTensor", S2(3), "einstein3", FROM("ll"), "passed"),
    conf_case("StressEnergyMomentumTensor", S2(2), "stress", ALLP(2)),
    conf_case("StressEnergyMomentumTensor", S2(3), "stress3", FROM("ll"), "passed"),
    conf_case("SchoutenTensor", S2(2), "schouten", ALLP(2)),
    conf_case("SchoutenTensor", S2(3), "schouten3", FROM("ll"), "passed"),
    conf_case("ChristoffelSymbols", S2(2), "christoffel", ALLP(3)),
    conf_case("ChristoffelSymbols", S2(3), "christoffel3", FROM("ull"), "passed"),
    conf_case("RiemannCurvatureTensor", S2(2), "riemann", FROM("ulll") + FROM("llll")),
    conf_case("RiemannCurvatureTensor", S2(2, kind="fix1"), "riemann_passed", [("llll", "ulll"), ("llll", "uuuu"), ("ulul", "lulu")], "passed"),
    conf_case("RiemannCurvatureTensor", S2(3, kind="fix1"), "riemann3", [("ulll", "llll"), ("llll", "ulll"), ("ulll", "uull")]),
    conf_case("WeylTensor", S2(2, config="uu"), "weyl", FROM("llll")),
    conf_case("WeylTensor", S2(2), "weyl_passed", FROM("ulll"), "passed"),
    conf_case("RiemannCurvatureTensor", S2(4, kind="fix0"), "riemann4", [("ulll", "llll"), ("llll", "ulul")], thorough_only=True),
    conf_case("RiemannCurvatureTensor", S2(3), "riemann3_generic", FROM("llll"), thorough_only=True),
    conf_case("ChristoffelSymbols", S2(4), "christoffel4", FROM("ull"), thorough_only=True),
]


# ---- requests that make no sense
KINDS = {"GenericVector": 1, "RicciTensor": 2, "EinsteinTensor": 2, "StressEnergyMomentumTensor": 2, "SchoutenTensor": 2, "MetricTensor": 2,
         "ChristoffelSymbols": 3, "RiemannCurvatureTensor": 4, "WeylTensor": 4, "BaseRelativityTensor": 2, "Tensor": 2}
ANY = ("BaseRelativityTensor", "Tensor")


def nonsense_scen(mk, i):
    import sympy
    import einsteinpy.symbolic as S
    from einsteinpy.symbolic.tensor import BaseRelativityTensor
    out = {"z": i["z"]}
    x = sympy.symbols("x y")
    arr = lambda r, n=2: sympy.ImmutableDenseNDimArray(range(1, n ** r + 1), (n,) * r) if r else sympy.Array(5)
    for k, r in KINDS.items():
        K = BaseRelativityTensor if k == "BaseRelativityTensor" else getattr(S, k)
        new = (lambda a, c: K(a, config=c)) if k == "Tensor" else (lambda a, c, sy=x: K(a, sy, config=c))
        ok = "u" * r if k != "MetricTensor" else "ll"
        out[k + ".good"] = new(arr(r), ok).config == ok
        bad = {"letter": (arr(r), "x" * r), "upper case": (arr(r), ok.upper()), "one index too many": (arr(r), ok + "l"), "one array index too many": (arr(r + 1), ok),
               "not a string": (arr(r), 3), "list": (arr(r), None)}
        if r > 1:
            bad["one index missing"] = (arr(r), ok[1:])
            bad["one array index missing"] = (arr(r - 1), ok)
            bad["half a letter"] = (arr(r), ok[1:] + "y")
        if k not in ANY:
            bad["other order"] = (arr(r + 1), ok + "u")
            if r > 1:
                bad["lower order"] = (arr(r - 1), ok[1:])
        for n, a in bad.items():
            out[f"{k}.{n}"] = mk.attempt(lambda: new(*a), Exception)
        out[k + ".not an array"] = mk.attempt(lambda: new({"a": 1}, ok), Exception)
        if k != "Tensor":
            out[k + ".too many symbols"] = mk.attempt(lambda: new(arr(r), ok, sympy.symbols("x y z")), Exception)
            out[k + ".symbols in a set"] = mk.attempt(lambda: new(arr(r), ok, {x[0], x[1]}), Exception)
        if k not in ANY + ("MetricTensor",):
            out[k + ".no metric"] = mk.attempt(lambda: new(arr(r), ok).change_config("l" * r, metric=None), Exception)
            m = S.MetricTensor([[2, 0], [0, 3]], x)
            for n in ("l" * (r + 1), "l" * r + "z", "z" * r, "L" * r):
                out[f"{k}.change to {n}"] = mk.attempt(lambda: new(arr(r), ok).change_config(n, metric=m), Exception)
    return {k: v if k == "z" else (v if isinstance(v, bool) else type(v).__name__) for k, v in out.items()}


def nonsense_claims(c, out, i):
    r = [Eq("z", out["z"], i["z"])]
    for k, v in out.items():
        if k.endswith(".good"):
            r.append(Fact(k, v is True))
        elif k != "z":
            r.append(Fact(k + " refused", v.endswith(("Error", "Exception")), str(v)))
    return r


CASES.append(sym_case("nonsense", lambda c: {"z": c.real("z", 0, 1)}, nonsense_scen, nonsense_claims, functions=("symbolic.*.__init__, change_config",),
                      bounds="every class, configurations of wrong length or letters, arrays of wrong rank or size, no metric"))


# ---- configurations assumed when none is given
DEFAULT = {"GenericVector": "u", "ChristoffelSymbols": "ull", "RiemannCurvatureTensor": "ulll", "WeylTensor": "ulll"}


def default_scen(mk, i):
    import sympy
    import einsteinpy.symbolic as S
    from einsteinpy.symbolic.tensor import BaseRelativityTensor
    out = {"z": i["z"]}
    x = sympy.symbols("x y")
    for k, r in KINDS.items():
        K = BaseRelativityTensor if k == "BaseRelativityTensor" else getattr(S, k)
        arr = sympy.ImmutableDenseNDimArray(range(1, 2 ** r + 1), (2,) * r)
        t = mk.attempt(lambda: K(arr) if k == "Tensor" else K(arr, x), Exception)
        out[k] = t.config if not isinstance(t, Exception) else type(t).__name__
    x = sympy.symbols("x y z")
    m = S.MetricTensor(sympy.diag(1, x[0] ** 2, x[0] ** 2 + x[1] ** 2).tolist(), x)
    for k in ("ChristoffelSymbols", "RiemannCurvatureTensor", "RicciTensor", "EinsteinTensor", "SchoutenTensor", "StressEnergyMomentumTensor"):
        t = mk.attempt(lambda: getattr(S, k).from_metric(m), Exception)
        if not isinstance(t, Exception):
            t2 = mk.attempt(lambda: t.change_config(), Exception)
            out["changed " + k] = t2.config if not isinstance(t2, Exception) else type(t2).__name__
        out["from " + k] = t.config if not isinstance(t, Exception) else type(t).__name__
    v = mk.attempt(lambda: S.GenericVector(list(x), x, config="l", parent_metric=m).change_config(), Exception)
    out["changed GenericVector"] = getattr(v, "config", type(v).__name__)
    out["changed MetricTensor"] = m.change_config().config
    return out


CHANGED = {"GenericVector": "u", "ChristoffelSymbols": "lll", "RiemannCurvatureTensor": "llll", "MetricTensor": "uu"}


def default_claims(c, out, i):
    r = [Eq("z", out["z"], i["z"])]
    for k, v in out.items():
        if k != "z":
            want = CHANGED.get(k[8:], "ul") if k.startswith("changed ") else DEFAULT.get(k.replace("from ", ""), "ll")
            r.append(Fact(k, v == want, f"{v} for {want}"))
    return r


CASES.append(sym_case("defaults", lambda c: {"z": c.real("z", 0, 1)}, default_scen, default_claims, functions=("symbolic.*.__init__, from_metric",),
                      bounds="every class built without a configuration"))
CASES += [conf_case("GenericVector", S2(5), "vector5", ALLP(1)), conf_case("RicciTensor", S2(5), "ricci5", FROM("ll"), "passed"), metric_case(S2(5), "metric5")]
