"""C16: the reported trajectory is the sequence of integrator states, in the
requested coordinates; a warning is issued exactly when the norm drifts."""
import warnings

from symx.umetric import UMetric
from .common import *

X, Pm = ("r", "th", "ph"), ("p1", "p2", "p3")


def inp(c):
    d = {n: c.real(n, 0.2, 1) for n in X + Pm}
    d["h"], d["w"] = c.real("h", 0.02, 0.1), c.real("w", 0.3, 1.2)
    R.eng().abbrev = 1
    return d


def tol_in(c):
    d = inp(c)
    d["rtol"], d["atol"] = c.real("rtol", 0, 0.002, nonneg=True), c.real("atol", 0, 0.002, nonneg=True)
    return d


def tol_sample(rng, v):
    v["rtol"], v["atol"] = (float(f"{10 ** rng.uniform(-6, 0):.4g}") for _ in "ab")


def geod(mk, i, cls, cart, metric, **kw):
    import einsteinpy.geodesic as G
    a = dict(metric=metric, metric_params=(), position=[i[n] for n in X], momentum=[i[n] for n in Pm], **kw)
    if cart is not None:
        a["return_cartesian"] = cart
    if cls[0] == "Geodesic":
        a["time_like"] = cls[1]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        o = getattr(G, cls[0])(**a)
    return o, sum(issubclass(x.category, RuntimeWarning) for x in w)


def manual(i, o, tl, metric, n, **kw):
    from einsteinpy.integrators import GeodesicIntegrator
    g = GeodesicIntegrator(metric=metric, metric_params=(), q0=o.position, p0=o.momentum, time_like=tl, steps=n,
                           suppress_warnings=True, **kw)
    rows = []
    for _ in range(n):
        g.step()
        rows.append([list(g.res_list[0]), list(g.res_list[1])])
    return rows


def traj_case(name, cls, cart, n, order, defaults=False):
    tl = cls[1]
    functions = ("Geodesic.calculate_trajectory", "Geodesic.trajectory", "Timelike", "Nulllike", "GeodesicIntegrator.step")

    def scen(mk, i):
        m = UMetric()
        kw = {} if defaults else dict(delta=i["h"], omega=i["w"], order=order)
        o, warn = geod(mk, i, cls, cart, m, steps=n, suppress_warnings=True, **kw)
        st, tr = o.trajectory
        full = dict(delta=0.5, omega=1.0, order=2) if defaults else kw
        return {"steps": [int(s) for s in st], "shape": list(tr.shape), "tr": [list(r) for r in tr],
                "manual": manual(i, o, tl, m, n, **full), "warn": warn, "coords": o.coords, "kind": o.kind}

    def claims(c, out, i):
        cl = [Fact("steps", out["steps"] == list(range(n)), out["steps"]), Fact("shape", out["shape"] == [n, 8], out["shape"]),
              Fact("suppressed", out["warn"] == 0)]
        for k, (q, p) in enumerate(out["manual"]):
            q = [R.lift(v) for v in q]
            if cart is False:
                want = q
            else:
                t, r, th, ph = q
                want = [t, r * F.sin(th) * F.cos(ph), r * F.sin(th) * F.sin(ph), r * F.cos(th)]
            for j in range(4):
                cl += [Eq(f"row {k} x{j}", out["tr"][k][j], want[j]), Eq(f"row {k} p{j}", out["tr"][k][4 + j], p[j])]
        return cl
    return simple_case(name, inp, scen, claims, functions=functions, check_defined=False, points=1, vtol=1e-5, angle_pi=False,
                       bounds=f"{n} steps, order {order}; uninterpreted metric, all initial states, step sizes and omega")


def int_defaults():
    """GeodesicIntegrator left to its documented defaults."""
    def scen(mk, i):
        from einsteinpy.integrators import GeodesicIntegrator
        m, r, q0, p0 = UMetric(), {}, [0.0] + [i[n] for n in X], [-1.0] + [i[n] for n in Pm]
        doc = dict(time_like=True, steps=100, delta=0.5, rtol=1e-2, atol=1e-2, order=2, omega=1.0)
        for nm, kw in (("bare", {}), ("documented", doc)):
            g = GeodesicIntegrator(metric=m, metric_params=(), q0=mk.arr(q0), p0=mk.arr(p0),
                                   suppress_warnings=True, **kw)
            g.step()
            r[nm] = [list(v) for v in g.results[-1]]
        return r

    def claims(c, out, i):
        return [Eq(f"default step {a}[{k}]", out["bare"][a][k], out["documented"][a][k]) for a in range(len(out["bare"])) for k in range(4)]
    return simple_case("integrator_defaults", inp, scen, claims, functions=("GeodesicIntegrator.__init__", "GeodesicIntegrator.step"), check_defined=False,
                       points=1, vtol=1e-5, angle_pi=False, bounds="one step with every option left out; uninterpreted metric, all initial states")


# ---- warnings
def warn_case(name, tl):
    n = 2

    def scen(mk, i):
        from einsteinpy.integrators import GeodesicIntegrator
        m = UMetric()
        o, _ = geod(mk, i, ("Geodesic", tl), False, m, steps=1, suppress_warnings=True, delta=i["h"], omega=i["w"])
        g = GeodesicIntegrator(metric=m, metric_params=(), q0=o.position, p0=o.momentum, time_like=tl, steps=n,
                               delta=i["h"], omega=i["w"], rtol=i["rtol"], atol=i["atol"], suppress_warnings=False)
        w, norm = [], []
        for _ in range(n):
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                g.step()
            w.append(sum(issubclass(x.category, RuntimeWarning) for x in rec))
            q, p = g.res_list[0], g.res_list[1]
            norm.append(m(q) @ p @ p)
        return {"warned": w, "norm": norm}

    def claims(c, out, i):
        cl = []
        const = -1 if tl else 0
        for k in range(n):
            d = R.lift(out["norm"][k]) - const
            lim = i["atol"] + i["rtol"] * abs(const)
            ok = And(d <= lim, -d <= lim)
            cl += [Fact(f"step {k} at most one warning", out["warned"][k] in (0, 1)),
                   Holds(f"step {k} warns exactly on drift", Not(ok) if out["warned"][k] else ok)]
        return cl
    return simple_case(name, tol_in, scen, claims, check_defined=False, points=4, sample=staticmethod(tol_sample), vtol=1e-5, angle_pi=False,
                       functions=("GeodesicIntegrator.step", "GeodesicIntegrator.__init__"),
                       bounds="2 steps of order 2; uninterpreted metric, all states, step sizes, tolerances")


def gwarn_case(name, tl, give):
    """The same through the Geodesic classes: tolerances are forwarded."""
    def scen(mk, i):
        m = UMetric()
        kw = dict(rtol=i["rtol"], atol=i["atol"]) if give else {}
        o, w = geod(mk, i, ("Timelike" if tl else "Nulllike", tl), False, m, steps=1, delta=i["h"], omega=i["w"], **kw)
        r = manual(i, o, tl, m, 1, delta=i["h"], omega=i["w"])[0]
        p = mk.arr(r[1])
        return {"warned": w, "norm": m(mk.arr(r[0])) @ p @ p}

    def claims(c, out, i):
        const = -1 if tl else 0
        d = R.lift(out["norm"]) - const
        rt, at = (i["rtol"], i["atol"]) if give else (Fraction(1, 100), Fraction(1, 100))
        lim = at + rt * abs(const)
        ok = And(d <= lim, -d <= lim)
        return [Fact("at most one warning", out["warned"] in (0, 1)), Holds("warns exactly on drift", Not(ok) if out["warned"] else ok)]
    return simple_case(name, tol_in, scen, claims, check_defined=False, points=4, sample=staticmethod(tol_sample), vtol=1e-5, angle_pi=False,
                       functions=("Geodesic.calculate_trajectory",), bounds="1 step; uninterpreted metric, all states and tolerances")


def order_case(order):
    """Orders 6 and 8 are really the ones used (series through h^3)."""
    from symx import taylor as T
    from .c14 import JetMetric, red
    co = dict(red(2))
    co.update({(2, 2, ()): 1, (3, 3, ()): 1})

    def oin(c):
        d = {"b1": c.real("b1", -0.9, 0.9), "b2": c.real("b2", -0.9, 0.9), "r": R.lift(0), "th": R.lift(0), "ph": R.lift(0),
             "p1": c.real("p1", -0.9, 0.9), "p2": R.lift(0), "p3": R.lift(0), "w": c.real("w", 0.3, 0.9), "h": c.real("h", 0.001, 0.002)}
        T.truncate(d["h"], 3)
        return d

    def scen(mk, i):
        i = {**{n: 0.0 for n in X + Pm}, **i}
        m = JetMetric(co, i)
        o, _ = geod(mk, i, ("Timelike", True), False, m, steps=1, suppress_warnings=True, delta=i["h"], omega=i["w"], order=order)
        st, tr = o.trajectory
        r = manual(i, o, True, m, 1, delta=i["h"], omega=i["w"], order=order)[0]
        return {"tr": list(tr[0]), "manual": r[0] + r[1]}
    return simple_case(f"order{order}", oin, scen, lambda c, out, i: [Eq(f"row 0 {k}", out["tr"][k], out["manual"][k]) for k in range(8)],
                       functions=("Geodesic.calculate_trajectory",), check_defined=False, points=1, vtol=1e-6, angle_pi=False,
                       bounds="1 step, series through h^3, g00 quadratic in one coordinate")


# ---- long histories: a constant metric, copies uncoupled
FLAT = [[-1, Fraction(1, 4), 0, 0], [Fraction(1, 4), 1, 0, Fraction(1, 8)], [0, 0, 2, 0], [0, Fraction(1, 8), 0, Fraction(1, 2)]]


def flat(x, *prm):
    g = np.zeros((4, 4))
    for a in range(4):
        for b in range(4):
            g[a, b] = float(FLAT[a][b])
    return g


def long_case(name, cls, cart, n, order=2, warn=False):
    tl = cls[1]

    def lin(c):
        # the sampled point passes r = 0 in the spherical case
        d = {k: c.real(k, -1, -0.6) if k == "p1" and cart is False else c.real(k, 0.2, 1) for k in X + Pm}
        d["h"] = c.real("h", 0.02, 0.1)
        if warn:
            d["rtol"], d["atol"] = c.real("rtol", 0, 0.5, nonneg=True), c.real("atol", 0, 0.5, nonneg=True)
            d["pt"] = c.real("pt", -1.3, -0.7)
        return d

    def scen(mk, i):
        if warn:
            from einsteinpy.integrators import GeodesicIntegrator
            g = GeodesicIntegrator(metric=flat, metric_params=(), q0=mk.arr([0.0] + [i[k] for k in X]), p0=mk.arr([i["pt"]] + [i[k] for k in Pm]),
                                   time_like=tl, steps=n, delta=i["h"], omega=0.0, rtol=i["rtol"], atol=i["atol"])
            w = []
            for _ in range(n):
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    g.step()
                w.append(sum(issubclass(x.category, RuntimeWarning) for x in rec))
            return {"warned": w}
        o, _ = geod(mk, i, cls, cart, flat, steps=n, suppress_warnings=True, delta=i["h"], omega=0.0, order=order)
        st, tr = o.trajectory
        return {"steps": [int(s) for s in st], "shape": list(tr.shape), "tr": [list(r) for r in tr], "p0": list(o.momentum)}

    def claims(c, out, i):
        if warn:
            p = [i["pt"]] + [i[k] for k in Pm]
            d = sum(FLAT[a][b] * R.lift(p[a]) * p[b] for a in range(4) for b in range(4)) + (1 if tl else 0)
            lim = i["atol"] + i["rtol"] * (1 if tl else 0)
            ok = And(d <= lim, -d <= lim)
            return [Fact("every step alike", len(set(out["warned"])) == 1 and out["warned"][0] in (0, 1), str(out["warned"])),
                    Holds("warns exactly on drift", Not(ok) if out["warned"][0] else ok)]
        cl = [Fact("steps", out["steps"] == list(range(n)), out["steps"]), Fact("shape", out["shape"] == [n, 8], out["shape"])]
        p = [R.lift(v) for v in out["p0"]]
        q0, v = [R.lift(0)] + [R.lift(i[k]) for k in X], [sum(FLAT[a][b] * p[b] for b in range(4)) for a in range(4)]
        for k in range(n):
            q = [q0[a] + (k + 1) * i["h"] * v[a] for a in range(4)]
            if cart is not False:
                t, r, th, ph = q
                q = [t, r * F.sin(th) * F.cos(ph), r * F.sin(th) * F.sin(ph), r * F.cos(th)]
            if cart is not False and k % 9 != 5:
                continue
            for j in range(4):
                cl += [Eq(f"row {k} x{j}", out["tr"][k][j], q[j]), Eq(f"row {k} p{j}", out["tr"][k][4 + j], p[j])]
        return cl
    return simple_case(name, lin, scen, claims, functions=("Geodesic.calculate_trajectory", "GeodesicIntegrator.step"), check_defined=False, points=1,
                       vtol=1e-5, angle_pi=False, bounds=f"{n} steps of order {order} in one constant metric, omega = 0, all initial states and step sizes"
                       + (", tolerances" if warn else ""))


CASES = [traj_case("cart_time", ("Timelike", True), None, 2, 2), traj_case("sph_time", ("Timelike", True), False, 2, 2),
         traj_case("cart_null", ("Nulllike", False), True, 2, 2), traj_case("sph_null", ("Nulllike", False), False, 2, 2),
         traj_case("sph_order4", ("Geodesic", True), False, 1, 4), traj_case("cart_null_geodesic", ("Geodesic", False), None, 1, 2),
         int_defaults(), traj_case("defaults", ("Geodesic", True), None, 2, 2, True), traj_case("one_step", ("Timelike", True), False, 1, 2),
         traj_case("three_steps", ("Timelike", True), False, 3, 2), order_case(6), order_case(8),
         warn_case("warn_time", True), warn_case("warn_null", False),
         gwarn_case("gwarn_time", True, True), gwarn_case("gwarn_null", False, True), gwarn_case("gwarn_default", True, False),
         long_case("long", ("Timelike", True), False, 130), long_case("long_cart", ("Nulllike", False), True, 60),
         long_case("long_warn", ("Timelike", True), None, 60, warn=True), long_case("long_warn_null", ("Nulllike", False), None, 60, warn=True)]
