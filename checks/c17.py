"""C17: the Runge-Kutta stepper is the classical fourth-order method and
honours its bound."""
from symx import taylor as T
from .common import *

CO = ("k0", "k1", "k2", "k3", "k4", "k5")


def rhs(i, t, y, sgn=1):
    return i["k0"] + i["k1"] * t + i["k2"] * y + i["k3"] * t * y + i["k4"] * y * y * sgn + i["k5"] * t * t


def base(c):
    d = {n: c.real(n, -0.7, 0.7) for n in CO}
    d["t0"], d["y0"] = c.real("t0", -0.5, 0.5), c.real("y0", -0.5, 0.5)
    d["h"] = c.real("h", 0.0005, 0.001)
    return d


def step_in(c):
    d = base(c)
    c.assume(d["h"] > 0)
    return d


def run(mk, i, fun, y0, tb, n):
    from einsteinpy.integrators import RK4naive
    import warnings
    o = RK4naive(fun, i["t0"], y0, tb, i["h"])
    out = []
    for _ in range(n):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            o.step()
        out.append({"t": o.t, "y": o.y, "warned": any(issubclass(x.category, RuntimeWarning) for x in w)})
    return out


def step_scen(mk, i):
    return run(mk, i, lambda t, y: rhs(i, t, y), i["y0"], i["t0"] + 10 * i["h"], 1)


def classical(f, t, y, h):
    k0 = f(t, y)
    k1 = f(t + h / 2, y + h / 2 * k0)
    k2 = f(t + h / 2, y + h / 2 * k1)
    k3 = f(t + h, y + h * k2)
    return y + h / 6 * (k0 + 2 * k1 + 2 * k2 + k3)


def step_claims(c, out, i):
    f = lambda t, y: rhs(i, t, y)
    return [Eq("y", out[0]["y"], classical(f, i["t0"], i["y0"], i["h"])), Eq("t", out[0]["t"], i["t0"] + i["h"]),
            Fact("no warning", not out[0]["warned"])]


# ---- vector state
def vec_in(c):
    d = {f"m{j}{k}": c.real(f"m{j}{k}", -0.7, 0.7) for j in range(3) for k in range(3)}
    d.update({f"y{j}": c.real(f"y{j}") for j in range(3)})
    d["t0"], d["h"], d["w"] = c.real("t0"), c.real("h", 0.01, 0.1), c.real("w")
    c.assume(d["h"] > 0)
    return d


def vec_f(i):
    def f(t, y):
        rows = [sum(i[f"m{j}{k}"] * y[k] for k in range(3)) + i["w"] * t for j in range(3)]
        if isinstance(y, np.ndarray) and y.dtype == object:
            r = np.empty(3, dtype=object)
            r[:] = rows
            return r.view(type(y))
        return np.array(rows)
    return f


def vec_scen(mk, i):
    return run(mk, i, vec_f(i), mk.arr([i[f"y{j}"] for j in range(3)]), i["t0"] + 2 * i["h"], 2)


def vec_claims(c, out, i):
    mkarr = np.empty(3, dtype=object)
    for j in range(3):
        mkarr[j] = i[f"y{j}"]
    f = vec_f(i)
    y1 = classical(f, i["t0"], mkarr, i["h"])
    y2 = classical(f, i["t0"] + i["h"], y1, i["h"])
    return EqArr("step1", lifted(out[0]["y"]), y1) + EqArr("step2", lifted(out[1]["y"]), y2) + \
        [Eq("t", out[1]["t"], i["t0"] + 2 * i["h"])]


# ---- order: agreement with the exact solution through h^4
def ord_in(c):
    d = base(c)
    T.truncate(d["h"], 4)
    return d


def ord_scen(mk, i):
    return run(mk, i, lambda t, y: rhs(i, t, y), i["y0"], i["t0"] + 10 if not mk.symbolic else R.lift(10 ** 6), 1)


def ord_claims(c, out, i):
    z = T.flow(lambda v: [R.lift(1), rhs(i, v[0], v[1])], [i["t0"], i["y0"]], i["h"])
    return [Eq(f"h^{k}", T.coeff(out[0]["y"], i["h"], k), T.coeff(z[1], i["h"], k)) for k in range(5)]


def ord_assume(c):
    d = ord_in(c)
    c.assume(d["t0"] < 1000, d["t0"] > -1000)
    return d


# ---- bounds, in either direction
def bnd_in(c):
    d = {n: c.real(n) for n in ("k0", "y0")}
    d["t0"], d["tb"] = c.real("t0", -3, 3), c.real("tb", -3, 3)
    d["h"] = c.real("h", 0.3, 2.5)
    d["sg"] = c.real("sg", -2, 2)
    c.assume(d["h"] > 0, Or(d["sg"] == 1, d["sg"] == -1), Implies(d["sg"] == 1, d["tb"] >= d["t0"]),
             Implies(d["sg"] == -1, d["tb"] < d["t0"]))
    return d


def bnd_sample(rng, vals):
    vals["sg"] = 1.0 if vals["tb"] >= vals["t0"] else -1.0


def bnd_scen(mk, i):
    j = dict(i)
    j["h"] = i["h"] * i["sg"]
    from einsteinpy.integrators import RK4naive
    return run(mk, j, lambda t, y: i["k0"], i["y0"], i["tb"], 3)


def bnd_claims(c, out, i):
    t, y = i["t0"], i["y0"]
    h = i["h"] * i["sg"]
    cl = []
    for n, o in enumerate(out):
        inside = Or(And(i["sg"] == 1, t < i["tb"]), And(i["sg"] == -1, t > i["tb"]))
        moved = Or(Not(R.lift(o["t"]) == t))
        cl += [Holds(f"step {n} advances inside the bound", Implies(inside, And(R.lift(o["t"]) == t + h, R.lift(o["y"]) == y + h * i["k0"]))),
               Holds(f"step {n} stops at the bound", Implies(Not(inside), And(R.lift(o["t"]) == t, R.lift(o["y"]) == y))),
               Holds(f"step {n} warns exactly at the bound", Not(inside) if o["warned"] else inside)]
        t, y = R.lift(o["t"]), R.lift(o["y"])
    return cl


# ---- a long run well inside the bound
def long_in(sg):
    def f(c):
        d = {"t0": c.real("t0"), "y0": c.real("y0"), "k0": c.real("k0"), "h": c.real("h", 0.1, 0.5, positive=True), "gap": c.real("gap", 0.1, 5, positive=True)}
        return d
    return f


def long_scen(sg, n):
    def f(mk, i):
        tb = i["t0"] + sg * (i["h"] * (n + 1) + i["gap"])
        return run(mk, {**i, "h": i["h"] * sg}, lambda t, y: i["k0"], i["y0"], tb, n)
    return f


def long_claims(sg, n):
    def f(c, out, i):
        cl = [Fact("no warning inside the bound", not any(o["warned"] for o in out), str([k for k, o in enumerate(out) if o["warned"]]))]
        for k, o in enumerate(out):
            cl += [Eq(f"t{k}", o["t"], i["t0"] + sg * (k + 1) * i["h"]), Eq(f"y{k}", o["y"], i["y0"] + sg * (k + 1) * i["h"] * i["k0"])]
        return cl
    return f


# ---- the adaptive stepper: what it asks scipy for
def rk45_in(c):
    d = {n: c.real(n) for n in ("t0", "y0", "tb")}
    for n in ("h", "rtol", "atol"):
        d[n] = c.real(n, 0.01, 0.3, positive=True)
    return d


def rk45_scen(mk, i):
    import warnings
    from einsteinpy.integrators import RK45
    base = RK45.__mro__[1]
    out = {}
    init, step = base.__init__, base.step
    try:
        for name, opts in (("none", {}), ("rtol", {"rtol": i["rtol"]}), ("atol", {"atol": i["atol"]}), ("both", {"rtol": i["rtol"], "atol": i["atol"]})):
            got, called = {}, []

            def fake(self, fun, t0=None, y0=None, t_bound=None, **k):
                got.update(fun=fun, t0=t0, y0=y0, t_bound=t_bound, **k)

            def bad(self):
                called.append(1)
                raise RuntimeError("Attempt to step on a failed or finished solver.")
            base.__init__, base.step = fake, (lambda self: called.append(0))
            f = lambda t, y: y
            o = RK45(f, i["t0"], i["y0"], i["tb"], i["h"], **opts)
            o.step()
            base.step = bad
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                r = mk.attempt(o.step, Exception)
            out[name] = {k: got.get(k) for k in ("t0", "y0", "t_bound", "rtol", "atol", "first_step", "max_step")}
            out[name]["fun"] = got.get("fun") is f or (callable(got.get("fun")) and got["fun"](1, 7) == 7)
            out[name]["warned"] = [type(r).__name__, sum(issubclass(x.category, RuntimeWarning) for x in w), called]
    finally:
        base.__init__, base.step = init, step
    return out


def rk45_claims(c, out, i):
    r = []
    for k, o in out.items():
        rtol = i["rtol"] if k in ("rtol", "both") else i["h"] * Fraction(1, 5)
        atol = i["atol"] if k in ("atol", "both") else rtol / 800
        r += [Eq(f"{k}.{n}", o[n], v) for n, v in (("t0", i["t0"]), ("y0", i["y0"]), ("t_bound", i["tb"]), ("rtol", rtol), ("atol", atol))]
        r += [Holds(k + ".steps", And(R.lift(o["first_step"]) > 0, R.lift(o["first_step"]) <= R.lift(o["max_step"]))),
              Fact(k + ".function", o["fun"]), Fact(k + ".step delegates, a finished solver only warns", o["warned"] == ["NoneType", 1, [0, 1]], str(o["warned"]))]
    return r


FN = ("RK4naive.__init__", "RK4naive.step")
CASES = [simple_case("step", step_in, step_scen, step_claims, functions=FN, bounds="y' = generic quadratic in (t, y), all coefficients, states, h>0"),
         simple_case("vector", vec_in, vec_scen, vec_claims, functions=FN, bounds="y' = M y + w t, y in R^3, two steps"),
         simple_case("order", ord_assume, ord_scen, ord_claims, functions=FN, bounds="Taylor coefficients h^0..h^4, generic quadratic right-hand side"),
         simple_case("bound", bnd_in, bnd_scen, bnd_claims, functions=FN, sample=staticmethod(bnd_sample),
                     bounds="three steps, all bounds, both directions"),
         *[simple_case(f"long_{nm}", long_in(sg), long_scen(sg, 70), long_claims(sg, 70), functions=FN, bounds="70 steps of y' = k well inside the bound, all states, slopes and steps")
           for nm, sg in (("forward", 1), ("backward", -1))],
         simple_case("rk45", rk45_in, rk45_scen, rk45_claims, functions=("RK45.__init__", "RK45.step"),
                     bounds="all states, bounds, steps and tolerances, tolerances given or left out; scipy's own stepping is replaced by a recorder")]
