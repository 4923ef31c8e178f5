"""C29: Lorentz (basis) transformation of tensors."""
from .symcommon import *
from .c28 import CLS, confs, comp_inputs, nested

RANKS = dict(CLS, BaseRelativityTensor=None, MetricTensor=2)


def matrix(c, inp, kind, n):
    """(inputs) of the transformation matrix."""
    if kind == "generic":
        return [[inp[f"L{i}{j}"] for j in range(n)] for i in range(n)]
    if kind == "fixed":
        return [[Fraction((i + 2) * (j + 1) % 5 + (7 if i == j else 0) - (2 if i < j else 0)) for j in range(n)] for i in range(n)]
    return [[Fraction(v) for v in r] for r in NUMERIC[kind](n)]


def block(top, n):
    """A 2x2 block in the first two directions, the identity in the rest."""
    return [[top[i][j] if i < 2 and j < 2 else Fraction(int(i == j)) for j in range(n)] for i in range(n)]


# matrices of special structure, on which shortcuts suggest themselves
NUMERIC = {"num_boost": lambda n: block([[Fraction(5, 4), Fraction(-3, 4)], [Fraction(-3, 4), Fraction(5, 4)]], n),
           "rotation": lambda n: block([[Fraction(3, 5), Fraction(4, 5)], [Fraction(-4, 5), Fraction(3, 5)]], n),
           "diagonal": lambda n: [[Fraction(k + 2, 3) if k == j else Fraction(0) for j in range(n)] for k in range(n)],
           "reflection": lambda n: [[Fraction(int(j == n - 1 - k)) for j in range(n)] for k in range(n)],
           "shear": lambda n: [[Fraction(1 if k == j else 2 * (j == k + 1)) for j in range(n)] for k in range(n)],
           "symmetric": lambda n: [[Fraction(2 if k == j else 1) for j in range(n)] for k in range(n)],
           "identity": lambda n: [[Fraction(int(k == j)) for j in range(n)] for k in range(n)]}


def lt_case(cls, n, rank, config, name, kind="generic", **kw):
    def inputs(c):
        d = {}
        if kind == "generic":
            for i in range(n):
                for j in range(n):
                    d[f"L{i}{j}"] = c.real(f"L{i}{j}", -2, 2)
            from symx import real as R
            M = [[d[f"L{i}{j}"] for j in range(n)] for i in range(n)]
            c.assume(det(M) != 0)
            # the elimination pivots of a generic matrix
            for k in range(1, n):
                c.assume(det([r[:k] for r in M[:k]]) != 0)
        elif kind == "boost":
            d["phi"] = c.real("phi", -1, 1)
        d.update(comp_inputs(c, n, rank))
        return d

    def lam(inp, sym=True):
        if kind != "boost":
            return matrix(None, inp, kind, n)
        from symx import funcs as F
        C, S = F.cosh(lift(inp["phi"])), F.sinh(lift(inp["phi"]))
        return [[C, -S, 0, 0], [-S, C, 0, 0], [0, 0, 0, 1], [0, 0, -1, 0]]

    def scenario(mk, inp):
        import sympy
        import einsteinpy.symbolic as S
        ar = Arena(mk, n)
        if kind == "boost":
            p = ar.sy("phi", inp["phi"])
            L = [[sympy.cosh(p), -sympy.sinh(p), 0, 0], [-sympy.sinh(p), sympy.cosh(p), 0, 0], [0, 0, 0, 1], [0, 0, -1, 0]]
        elif kind == "generic":
            L = [[ar.sy(f"L{i}{j}", inp[f"L{i}{j}"]) for j in range(n)] for i in range(n)]
        else:
            L = [[sympy.Rational(v) for v in r] for r in matrix(None, None, kind, n)]
        T = nested(lambda i: ar.sy("T" + "".join(map(str, i)), inp["T" + "".join(map(str, i))]), n, rank)
        K = getattr(S, cls)
        t = K(T, ar.x, config=config)
        with stubbed(None):
            r = t.lorentz_transform(L)
        want = sorted(s.name for s in r.tensor().free_symbols if s not in ar.x)
        return {"r": ar.arr(r), "kind": type(r).__name__, "config": r.config, "vars": sorted(v.name for v in r.variables) == want,
                "syms": tuple(r.symbols()) == tuple(ar.x)}

    def claims(c, out, inp):
        L = lam(inp)
        X = lifted(out["r"])
        Y = np.empty((n,) * rank, dtype=object)
        for i in np.ndindex(*Y.shape):
            Y[i] = inp["T" + "".join(map(str, i))]
        # upper: result = Lambda original;  lower: original = Lambda^T result
        for p, ch in enumerate(config):
            src = Y if ch == "u" else X
            new = np.empty((n,) * rank, dtype=object)
            for i in np.ndindex(*src.shape):
                if ch == "u":
                    new[i] = lift(ssum([pm(L[i[p]][k], src[i[:p] + (k,) + i[p + 1:]]) for k in range(n)]))
                else:
                    new[i] = lift(ssum([pm(L[k][i[p]], src[i[:p] + (k,) + i[p + 1:]]) for k in range(n)]))
            if ch == "u":
                Y = new
            else:
                X = new
        return [Fact("kind", out["kind"] == cls, out["kind"]), Fact("config", out["config"] == config), Fact("symbols", out["syms"]),
                Fact("free variables reported", out["vars"])] + EqArr("components", X, Y)
    return sym_case(name, inputs, scenario, claims, functions=(f"symbolic.{cls}.lorentz_transform", "symbolic.tensor.BaseRelativityTensor.lorentz_transform"),
                    bounds=f"dimension {n}, {cls} of configuration {config}, all components, " + {"generic": "every matrix with nonzero leading minors", "boost": "every boost along x with a quarter turn in y-z", "fixed": "one fixed rational matrix"}.get(kind, f"one rational matrix ({kind})"), **kw)


def det(M):
    n = len(M)
    if n == 1:
        return lift(M[0][0])
    r = lift(0)
    for j in range(n):
        m = lift(M[0][j]) * det([row[:j] + row[j + 1:] for row in M[1:]])
        r = r + m if j % 2 == 0 else r - m
    return r


CASES = [
    lt_case("GenericVector", 3, 1, "u", "vector_u"), lt_case("GenericVector", 3, 1, "l", "vector_l"),
    lt_case("GenericVector", 4, 1, "l", "vector_boost_l", "boost"), lt_case("GenericVector", 4, 1, "u", "vector_boost_u", "boost"),
]
for _k in ("uu", "ul", "lu", "ll"):
    CASES.append(lt_case("RicciTensor", 2, 2, _k, f"ricci_{_k}"))
CASES += [
    lt_case("MetricTensor", 4, 2, "ll", "metric_boost", "boost"), lt_case("MetricTensor", 2, 2, "uu", "metric_uu"),
    lt_case("EinsteinTensor", 2, 2, "ul", "einstein"), lt_case("StressEnergyMomentumTensor", 2, 2, "uu", "stress"),
    lt_case("SchoutenTensor", 2, 2, "lu", "schouten"), lt_case("ChristoffelSymbols", 2, 3, "ull", "christoffel"),
    lt_case("RiemannCurvatureTensor", 2, 4, "ulll", "riemann"), lt_case("WeylTensor", 2, 4, "llll", "weyl"), lt_case("WeylTensor", 2, 4, "uulu", "weyl2"),
    lt_case("EinsteinTensor", 4, 2, "lu", "einstein_boost", "boost"), lt_case("RicciTensor", 4, 2, "ll", "ricci_fixed", "fixed"),
    lt_case("BaseRelativityTensor", 2, 3, "ulu", "base3"), lt_case("BaseRelativityTensor", 2, 2, "ll", "base2"),
    lt_case("BaseRelativityTensor", 3, 2, "lu", "base3d"),
    lt_case("RicciTensor", 3, 2, "ll", "ricci3_ll"), lt_case("RicciTensor", 4, 2, "uu", "ricci4_uu", thorough_only=True),
    lt_case("ChristoffelSymbols", 4, 3, "ull", "christoffel_boost", "boost"),
]
CASES += [lt_case("GenericVector", 5, 1, "l", "vector5", "fixed"), lt_case("RicciTensor", 5, 2, "ul", "ricci5", "fixed")]
CASES += [lt_case("BaseRelativityTensor", 4, 2, c_, f"{k_}_{c_}", k_) for k_, c_ in (("num_boost", "ll"), ("rotation", "ul"), ("diagonal", "lu"), ("reflection", "ll"),
                                                                              ("shear", "ll"), ("symmetric", "ul"), ("identity", "ll"))]
CASES += [lt_case("GenericVector", 4, 1, "l", f"vector_{k_}", k_) for k_ in NUMERIC]
