"""C31: subs / simplify / tensor_lambdify agree with the tensor."""
import math

from .symcommon import *
from .c28 import CLS, nested
from symx import funcs as F
from symx.real import SymReal


def exprs(x, p, n, rank):
    """A fixed family of component expressions over the coordinates x and
    parameters p (all different, with elementary functions)."""
    import sympy as s
    base = [lambda k: (k + 1) * x[k % n] ** 2 + p[0] * x[(k + 1) % n],
            lambda k: s.sin(x[k % n]) * p[k % len(p)] + s.Rational(k + 1, 3),
            lambda k: s.exp(-p[k % len(p)] * x[0]) * (k + 2),
            lambda k: s.sqrt(1 + x[k % n] ** 2) / (2 + p[0] ** 2),
            lambda k: s.cos(x[1]) ** 2 * x[0] - (k + 1) * p[-1] * x[n - 1],
            lambda k: s.Integer(k % 3)]
    cnt = [0]

    def f(idx):
        k = cnt[0]
        cnt[0] += 1
        return base[(k * 5 + sum(idx)) % len(base)](k)
    return nested(f, n, rank)


def inputs_for(n, np_):
    def inputs(c):
        d = {f"x{i}": c.real(f"x{i}", 0.3, 1.2) for i in range(n)}
        d.update({f"p{i}": c.real(f"p{i}", 0.4, 1.5) for i in range(np_)})
        return d
    return inputs


def make(mk, inp, cls, n, rank, np_, config, names=None):
    """(arena, tensor, coordinate symbols, parameters); the parameter names are
    not in alphabetical order of their use."""
    import einsteinpy.symbolic as S
    ar = Arena(mk, n)
    for i in range(n):
        ar.symval[ar.x[i]] = inp[f"x{i}"]
    names = names or ["zeta", "alpha", "mu"][:np_]
    p = [ar.sy(nm, inp[f"p{i}"]) for i, nm in enumerate(names)]
    E = exprs(ar.x, p, n, rank)
    if cls == "Tensor":
        return ar, S.Tensor(E, config=config) if hasattr(S, "Tensor") else __import__("einsteinpy.symbolic.tensor", fromlist=["Tensor"]).Tensor(E, config=config), p
    return ar, getattr(S, cls)(E, ar.x, config=config), p


def original(ar, t):
    return ar.arr(t)


def subs_case(cls, n, rank, config, name):
    def scenario(mk, inp):
        import sympy
        ar, t, p = make(mk, inp, cls, n, rank, 2, config)
        before = ar.arr(t)
        w = sympy.Symbol("w")
        ar.symval[w] = inp["w"]
        cases = {"two": t.subs(p[0], w ** 2 + 1), "list": t.subs([(p[0], w), (p[1], 3)]), "coord": t.subs(ar.x[0], ar.x[1] + w),
                 "none": t.subs(sympy.Symbol("unused"), 5), "dict": t.subs({p[1]: w}), "chain": t.subs([(p[0], p[1]), (p[1], w)]), "tuple": t.subs(((p[1], p[0] * w), (ar.x[0], 2)))}
        out = {k: {"v": ar.arr(v), "config": v.config, "order": str(v.order)} for k, v in cases.items()}
        out["self"] = ar.arr(t)
        out["before"] = before
        return out

    def inputs(c):
        d = inputs_for(n, 2)(c)
        d["w"] = c.real("w", 0.4, 1.3)
        return d

    def claims(c, out, inp):
        import sympy
        from symx.harness import Mk
        r = []
        w = inp["w"]
        maps = {"two": {"p0": w * w + 1}, "list": {"p0": w, "p1": lift(3)}, "coord": {"x0": inp["x1"] + w}, "none": {}, "dict": {"p1": w}, "chain": {"p0": w, "p1": w}, "tuple": {"p1": inp["p0"] * w, "x0": lift(2)}}
        for k, m in maps.items():
            inp2 = dict(inp)
            inp2.update(m)
            ar, t, _ = make(Mk(True), inp2, cls, n, rank, 2, config)
            r += [Fact(k + ".config", out[k]["config"] == config, out[k]["config"]), Fact(k + ".order", out[k]["order"] == str(rank))]
            r += EqArr(k, out[k]["v"], ar.arr(t))
        r += EqArr("original", out["self"], out["before"])
        return r
    return sym_case(name, inputs, scenario, claims, functions=("symbolic.tensor.Tensor.subs",), bounds=f"{cls} of configuration {config}, dimension {n}, all values of coordinates, parameters and the substituted symbol")


def simplify_case(cls, n, rank, config, name):
    def scenario(mk, inp):
        from einsteinpy.symbolic.helpers import simplify_sympy_array
        out = {}
        ar, t, p = make(mk, inp, cls, n, rank, 2, config)
        with stubbed(None):
            a = t.simplify(set_self=False)
            out["copy"] = ar.arr(a)
            out["kept"] = ar.arr(t)
            out["fn"] = ar.arr(simplify_sympy_array(t.tensor()))
            b = t.simplify()
            out["ret"] = ar.arr(b)
            out["set"] = ar.arr(t)
            out["meta"] = f"{type(t).__name__} {t.config} {t.order}"
        return out

    def claims(c, out, inp):
        from symx.harness import Mk
        ar, t, _ = make(Mk(True), inp, cls, n, rank, 2, config)
        ref = ar.arr(t)
        r = [Fact("kind and configuration", out["meta"] == f"{cls} {config} {rank}", out["meta"])]
        for k in ("copy", "kept", "fn", "ret", "set"):
            r += EqArr(k, np.asarray(out[k], dtype=object), np.asarray(ref, dtype=object))
        return r
    return sym_case(name, inputs_for(n, 2), scenario, claims, functions=("symbolic.tensor.Tensor.simplify", "symbolic.helpers.simplify_sympy_array", "symbolic.helpers._flatten_list"),
                    bounds=f"{cls} of configuration {config}, dimension {n}, all values of coordinates and parameters; sympy.simplify itself is trusted")


def simplify_true_case(name):
    """With sympy's own simplify, on expressions on which rewriting that is only
    right for positive (or rounded) values changes the value."""
    n = 3

    def expressions(ar):
        import sympy as s
        x, y, z = ar.x
        return [s.sqrt(x ** 2) + y, s.sin(x) ** 2 + s.cos(x) ** 2 + y * z, x + s.Rational(1, 10 ** 9) * y, (x ** 2 - y ** 2) / (x - y), s.sqrt(x ** 2 * y ** 2) - z,
                s.sqrt((x - y) ** 2), s.exp(x) * s.exp(y), s.Abs(z) * x, s.Rational(333333333, 10 ** 9) * x + s.Rational(1, 7)]

    def inputs(c):
        d = {f"x{i}": c.real(f"x{i}", -2, -0.4) if i == 0 else c.real(f"x{i}", 0.2, 1.5) for i in range(n)}
        c.assume(d["x0"] != d["x1"])
        return d

    def scenario(mk, inp):
        import einsteinpy.symbolic as S
        from einsteinpy.symbolic.tensor import Tensor
        from einsteinpy.symbolic.helpers import simplify_sympy_array
        ar = Arena(mk, n)
        for i in range(n):
            ar.symval[ar.x[i]] = inp[f"x{i}"]
        E = expressions(ar)
        t = S.GenericVector(E[:3], ar.x, config="u")
        m = Tensor([E[:3], E[3:6], E[6:9]], config="lu")
        out = {"fn": ar.arr(simplify_sympy_array(m.tensor())), "copy": ar.arr(m.simplify(set_self=False)), "kept": ar.arr(m)}
        t.simplify()
        m.simplify()
        out["set"], out["vec"] = ar.arr(m), ar.arr(t)
        return out

    def claims(c, out, inp):
        x, y, z = (lift(inp[f"x{i}"]) for i in range(n))
        A = F.absolute
        want = [A(x) + y, 1 + y * z, x + y / 10 ** 9, x + y, A(x) * A(y) - z, A(x - y), F.exp(x + y), A(z) * x, x * Fraction(333333333, 10 ** 9) + Fraction(1, 7)]
        r = []
        for k in ("fn", "copy", "kept", "set"):
            r += [Eq(f"{k}[{j}]", lifted(out[k]).ravel()[j], want[j]) for j in range(9)]
        return r + [Eq(f"vec[{j}]", lifted(out["vec"])[j], want[j]) for j in range(3)]
    return sym_case(name, inputs, scenario, claims, functions=("symbolic.tensor.Tensor.simplify", "symbolic.helpers.simplify_sympy_array"), vtol=1e-13, atol=1e-13,
                    bounds="nine expressions of three coordinates, all real values with x0 != x1; sympy's simplify executed")


def lambdify_case(cls, n, rank, config, name, explicit=None, np_=3, given=False):
    def scenario(mk, inp):
        ar, t, p = make(mk, inp, cls, n, rank, np_, config)
        if explicit is None:
            args, f = t.tensor_lambdify()
        elif given:
            from einsteinpy.symbolic.tensor import BaseRelativityTensor
            t = BaseRelativityTensor(t.tensor(), ar.x, config=config, variables=[p[i - n] for i in explicit[n:]], functions=[])
            args, f = t.tensor_lambdify()
        else:
            order = [(list(ar.x) + p)[i] for i in explicit]
            args, f = t.tensor_lambdify(*order)
        vals = [ar.symval[a] for a in args]
        v = f(*vals)
        return {"args": [str(a) for a in args], "v": np.array(v, dtype=object), "kept": ar.arr(t)}

    def claims(c, out, inp):
        from symx.harness import Mk
        ar, t, p = make(Mk(True), inp, cls, n, rank, np_, config)
        ref = ar.arr(t)
        if explicit is None:
            want = [str(x) for x in ar.x] + sorted({str(s) for s in t.tensor().free_symbols} - {str(x) for x in ar.x})
        else:
            want = [str((list(ar.x) + p)[i]) for i in explicit]
        return [Fact("argument order", out["args"] == want, f"{out['args']} vs {want}")] + EqArr("value", np.asarray(out["v"], dtype=object), np.asarray(ref, dtype=object)) \
            + EqArr("kept", np.asarray(out["kept"], dtype=object), np.asarray(ref, dtype=object))
    return sym_case(name, inputs_for(n, np_), scenario, claims, functions=("symbolic.tensor.BaseRelativityTensor.tensor_lambdify", "the generated numpy function"),
                    bounds=f"{cls} of configuration {config}, dimension {n}, all argument values")


def derived_case(name):
    """lambdified results of tensor operations take every free symbol."""
    n = 2

    def scenario(mk, inp):
        import sympy
        import einsteinpy.symbolic as S
        from einsteinpy.symbolic.tensor import tensor_product, BaseRelativityTensor
        ar = Arena(mk, n)
        for i in range(n):
            ar.symval[ar.x[i]] = inp[f"x{i}"]
        a, b, w = ar.sy("alpha", inp["p0"]), ar.sy("beta", inp["p1"]), ar.sy("omega", inp["p2"])
        A = BaseRelativityTensor([[a * ar.x[0], 1], [2, ar.x[1] ** 2]], ar.x, config="ul")
        B = BaseRelativityTensor([b + ar.x[0], b * sympy.sin(ar.x[1])], ar.x, config="u")
        L = [[w, 1], [2, 3]]
        with stubbed(None):
            R = {"product": tensor_product(A, B), "contracted": tensor_product(A, B, 1, 0), "transformed": A.lorentz_transform(L), "transformed_vector": B.lorentz_transform(L)}
        out = {}
        for k, t in R.items():
            args, f = t.tensor_lambdify()
            v = f(*[ar.symval[s] for s in args])
            out[k] = {"v": np.array(v, dtype=object), "ref": ar.arr(t)}
        return out

    def claims(c, out, inp):
        r = []
        for k, o in out.items():
            r += EqArr(k, np.asarray(o["v"], dtype=object), np.asarray(o["ref"], dtype=object))
        return r

    def inputs(c):
        d = inputs_for(n, 3)(c)
        c.assume(3 * d["p2"] - 2 != 0, d["p2"] != 0)
        return d
    return sym_case(name, inputs, scenario, claims, functions=("symbolic.tensor.tensor_product", "symbolic.tensor.BaseRelativityTensor.lorentz_transform", "symbolic.tensor.BaseRelativityTensor.tensor_lambdify"),
                    bounds="dimension 2, all argument values")


CASES = [
    subs_case("Tensor", 2, 2, "uu", "subs_tensor_uu"), subs_case("GenericVector", 3, 1, "u", "subs_vector"), subs_case("MetricTensor", 3, 2, "ll", "subs_metric"),
    subs_case("RicciTensor", 2, 2, "ul", "subs_ricci"), subs_case("ChristoffelSymbols", 2, 3, "ull", "subs_christoffel"),
    subs_case("RiemannCurvatureTensor", 2, 4, "ulll", "subs_riemann"),
    simplify_case("Tensor", 3, 1, "l", "simplify_tensor1"), simplify_case("RicciTensor", 3, 2, "ll", "simplify_ricci"),
    simplify_case("ChristoffelSymbols", 3, 3, "ull", "simplify_christoffel"), simplify_case("WeylTensor", 2, 4, "llll", "simplify_weyl"),
    simplify_case("RiemannCurvatureTensor", 4, 4, "ulll", "simplify_riemann4"), simplify_case("Tensor", 2, 0, "", "simplify_scalar"),
    simplify_true_case("simplify_true"),
    lambdify_case("GenericVector", 4, 1, "u", "lambdify_vector"), lambdify_case("MetricTensor", 4, 2, "ll", "lambdify_metric"),
    lambdify_case("ChristoffelSymbols", 3, 3, "ull", "lambdify_christoffel"), lambdify_case("RiemannCurvatureTensor", 2, 4, "ulll", "lambdify_riemann"),
    lambdify_case("MetricTensor", 3, 2, "ll", "lambdify_explicit", explicit=[4, 2, 0, 5, 1, 3]),
    lambdify_case("RicciTensor", 3, 2, "ll", "lambdify_variables", explicit=[0, 1, 2, 4, 3, 5], given=True),
    lambdify_case("EinsteinTensor", 4, 2, "ul", "lambdify_einstein", np_=2),
    derived_case("lambdify_derived"),
]
CASES += [subs_case("RicciTensor", 5, 2, "ll", "subs_ricci5"), simplify_case("EinsteinTensor", 5, 2, "ul", "simplify_einstein5"), lambdify_case("RicciTensor", 5, 2, "lu", "lambdify_ricci5")]
