"""C30: tensor products and contractions."""
from .symcommon import *
from .c28 import comp_inputs, nested


def prod_case(name, n, c1, c2, cls1="BaseRelativityTensor", cls2="BaseRelativityTensor", parent="first", **kw):
    r1, r2 = len(c1), len(c2)

    def inputs(c):
        d = comp_inputs(c, n, r1, "A")
        d.update(comp_inputs(c, n, r2, "B"))
        return d

    def scenario(mk, inp):
        import einsteinpy.symbolic as S
        from einsteinpy.symbolic.tensor import tensor_product
        ar = Arena(mk, n)
        mA = S.MetricTensor([[1 if i == j else 0 for j in range(n)] for i in range(n)], ar.x)
        mB = S.MetricTensor([[2 if i == j else 0 for j in range(n)] for i in range(n)], ar.x)
        comp = lambda p: (lambda i: ar.sy(p + "".join(map(str, i)), inp[p + "".join(map(str, i))]))
        A = getattr(S, cls1)(nested(comp("A"), n, r1), ar.x, config=c1, parent_metric=mA if parent == "first" else None)
        B = getattr(S, cls2)(nested(comp("B"), n, r2), ar.x, config=c2, parent_metric=mB)
        out = {}

        def put(k, f):
            t = mk.attempt(f, ValueError)
            if isinstance(t, Exception):
                out[k] = "ValueError"
                return
            want = sorted(s.name for s in t.tensor().free_symbols)
            out[k] = {"v": ar.arr(t), "config": t.config, "order": str(t.order), "parent": t.parent_metric is (mA if parent == "first" else None),
                      "vars": sorted(v.name for v in t.variables) == want, "syms": tuple(t.symbols()) == tuple(ar.x)}
        with stubbed(None):
            put("outer", lambda: tensor_product(A, B))
            for i in range(r1):
                for j in range(r2):
                    put(f"c{i}{j}", lambda: tensor_product(A, B, i, j))
                    put(f"k{i}{j}", lambda: tensor_product(A, B, j=j, i=i))
        return out

    def claims(c, out, inp):
        A = np.empty((n,) * r1, dtype=object)
        B = np.empty((n,) * r2, dtype=object)
        for i in np.ndindex(*A.shape):
            A[i] = inp["A" + "".join(map(str, i))]
        for i in np.ndindex(*B.shape):
            B[i] = inp["B" + "".join(map(str, i))]
        r = []

        def check(k, ref, conf):
            o = out[k]
            if not isinstance(o, dict):
                r.append(Fact(k + ".allowed", False, str(o)))
                return
            r.extend([Fact(k + ".config", o["config"] == conf, o["config"]), Fact(k + ".order", o["order"] == str(len(conf))),
                      Fact(k + ".parent metric", o["parent"]), Fact(k + ".free variables reported", o["vars"]), Fact(k + ".symbols", o["syms"])])
            r.extend(EqArr(k, np.asarray(o["v"], dtype=object), ref))
        ref = np.empty((n,) * (r1 + r2), dtype=object)
        for i in np.ndindex(*ref.shape):
            ref[i] = A[i[:r1]] * B[i[r1:]]
        check("outer", ref, c1 + c2)
        for i in range(r1):
            for j in range(r2):
                for k in ("c", "k"):
                    k = f"{k}{i}{j}"
                    if c1[i] == c2[j]:
                        r.append(Fact(k + ".rejected", out[k] == "ValueError", str(out[k])[:80]))
                        continue
                    ref = np.empty((n,) * (r1 + r2 - 2), dtype=object)
                    for x in np.ndindex(*ref.shape):
                        a, b = x[:r1 - 1], x[r1 - 1:]
                        ref[x] = ssum([A[a[:i] + (s,) + a[i:]] * B[b[:j] + (s,) + b[j:]] for s in range(n)])
                    check(k, ref, c1[:i] + c1[i + 1:] + c2[:j] + c2[j + 1:])
        return r
    return sym_case(name, inputs, scenario, claims, functions=("symbolic.tensor.tensor_product",),
                    bounds=f"dimension {n}, configurations {c1} x {c2}, all components, every index pair", **kw)


CASES = [
    prod_case("v_v", 4, "u", "l", "GenericVector", "GenericVector"),
    prod_case("v_t", 3, "u", "ll", "GenericVector", "RicciTensor"),
    prod_case("t_v", 3, "ul", "u", "RicciTensor", "GenericVector"),
    prod_case("t_t", 2, "ll", "uu"), prod_case("t_t_mixed", 3, "ul", "lu", "EinsteinTensor", "RicciTensor"),
    prod_case("t3_v", 2, "ull", "u", "ChristoffelSymbols", "GenericVector"), prod_case("v_t3", 2, "l", "uul"),
    prod_case("t3_t2", 2, "lul", "ul"), prod_case("t2_t3", 2, "lu", "ull", "RicciTensor", "ChristoffelSymbols", parent="none"),
    prod_case("t3_t3", 2, "ull", "luu"), prod_case("t4_t2", 2, "ulll", "uu", "RiemannCurvatureTensor", "RicciTensor"),
    prod_case("t4_v", 2, "llul", "l"),
    prod_case("t4_t4", 2, "ulll", "luul"), prod_case("t3_t2_d3", 3, "ulu", "lu", thorough_only=True),
]
CASES += [prod_case("v_t_d5", 5, "l", "ul", "GenericVector", "RicciTensor"), prod_case("t_t_d4", 4, "ul", "ul", "RicciTensor", "EinsteinTensor")]
