"""C12: geodesics start at the given state with a normalised, future-directed
4-momentum."""
from .common import *
from .c13 import geo_inputs, delta1, textbook, geodesic_obj, params_of, KINDS

MOM = ("p1", "p2", "p3")


def inp(kind, any_region=False):
    def f(c):
        d = geo_inputs(c, kind)
        for n in MOM:
            d[n] = c.real(n)
        c.assume(delta1(d) > 0)
        # g^tt < 0: (r^2+a^2)^2 > a^2 Delta sin^2
        r, a = d["r"], d.get("a", 0)
        if kind != "Schwarzschild":
            c.assume((r ** 2 + a ** 2) ** 2 > a ** 2 * delta1(d) * F.sin(d["th"]) ** 2)
        return d
    return f


def out_of(o):
    return {"pos": list(o.position), "p": list(o.momentum), "g": o.metric(o.position, *o.metric_params)}


def scen(kind, tl, cls):
    def f(mk, i):
        return out_of(geodesic_obj(mk, kind, params_of(kind, i), [i["r"], i["th"], i["ph"]], [i[n] for n in MOM], tl, cls))
    return f


def claims(tl, user=False):
    def f(c, out, i):
        p = [R.lift(x) for x in out["p"]]
        g = lifted(out["g"])
        n = sum((g[a, b] * p[a] * p[b] for a in range(4) for b in range(4)), R.lift(0))
        pt = sum((g[0, b] * p[b] for b in range(4)), R.lift(0))
        cl = [Eq("normalised", n, -1 if tl else 0)]
        cl.append(Holds("future directed", pt >= 0))
        nz = Or(*[Not(p[k] == 0) for k in (1, 2, 3)])
        if tl and not user:
            cl.append(Holds("strictly future directed", pt > 0))
        elif not user:
            cl.append(Holds("strictly future directed", Implies(nz, pt > 0)))
        cl += [Eq(f"p[{k+1}]", p[k + 1], i[m]) for k, m in enumerate(MOM)]
        names = ("r", "th", "ph") if "r" in i else ("x1", "x2", "x3")
        cl += [Eq("x[0]", out["pos"][0], 0)] + [Eq(f"x[{k+1}]", out["pos"][k + 1], i[m]) for k, m in enumerate(names)]
        return cl
    return f


# ---- user-supplied metric: any symmetric value
def user_in(tl):
    def f(c):
        d = {n: c.real(n) for n in ("x1", "x2", "x3") + MOM + ("k",)}
        for a in range(4):
            for b in range(a, 4):
                d[f"g{a}{b}"] = c.real(f"g{a}{b}")
        g = {(a, b): d[f"g{min(a, b)}{max(a, b)}"] for a in range(4) for b in range(4)}
        p = [None] + [d[n] for n in MOM]
        B = sum((2 * g[0, k] * p[k] for k in (1, 2, 3)), R.lift(0))
        C = sum((g[a, b] * p[a] * p[b] for a in (1, 2, 3) for b in (1, 2, 3)), R.lift(0)) + (1 if tl else 0)
        c.assume(g[0, 0] < 0, B * B - 4 * g[0, 0] * C >= 0)
        return d
    return f


def user_metric(mk, i):
    def g(x, *params):
        rows = [[i[f"g{min(a, b)}{max(a, b)}"] * params[0] / i["k"] for b in range(4)] for a in range(4)]
        if mk.symbolic:
            return np.array(rows, dtype=object).view(type(mk.arr([0])))
        return np.array(rows, dtype=float)
    return g


def user_sample(rng, vals):
    for k in range(4):
        vals[f"g{k}{k}"] = abs(vals[f"g{k}{k}"]) * (-1 if k == 0 else 1)


def user_scen(tl, cls):
    def f(mk, i):
        return out_of(geodesic_obj(mk, user_metric(mk, i), (i["k"],), [i["x1"], i["x2"], i["x3"]], [i[n] for n in MOM], tl, cls))
    return f


def user_ink(tl):
    def f(c):
        d = user_in(tl)(c)
        c.assume(d["k"] != 0)
        return d
    return f


# ---- unknown names
def bad_scen(mk, i):
    out = {}
    for k, n in enumerate(("schwarzschild", "Kerr-Newman", "", "Reissner", None, 3)):
        out[str(k)] = mk.attempt(lambda: geodesic_obj(mk, n, (0.5,), [i["r"], i["th"], i["ph"]], [0.0, 0.0, i["r"]]), Exception)
    return out


def bad_claims(c, out, i):
    return [Fact(f"{k} refused", type(v).__name__ == "NotImplementedError", repr(v)) for k, v in out.items()]


FN = ("Geodesic.__init__", "Timelike.__init__", "Nulllike.__init__", "geodesic.utils._P", "geodesic.utils metrics")
B = "M=1 units: all r>0 with Delta>0 and g^tt<0, 0<theta<pi, all momenta, 0<=a<=1, all charges"
CASES = []
for k in KINDS:
    for tl, cls in ((True, None), (False, None), (True, "Timelike"), (False, "Nulllike")):
        CASES.append(simple_case(f"{k}_{cls or ('time' if tl else 'null')}", inp(k), scen(k, tl, cls), claims(tl), functions=FN, bounds=B, timeout=150))
for tl, cls in ((True, "Timelike"), (False, "Nulllike")):
    CASES.append(simple_case(f"user_{cls}", user_ink(tl), user_scen(tl, cls), claims(tl, True), functions=FN,
                             sample=staticmethod(user_sample),
                             bounds="user metrics: every symmetric 4x4 value with g^tt<0 and a real root, all momenta"))
CASES.append(simple_case("unknown", lambda c: geo_inputs(c, "Schwarzschild"), bad_scen, bad_claims, functions=("Geodesic.__init__",),
                         bounds="six names that are not supported metrics"))
