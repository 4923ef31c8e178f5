"""C20: the Schwarzschild shadow model."""
import contextlib
import sys

from .common import *
from symx import funcs as F
from symx.real import lift, cmp0

FN = ("rays.shadow.Shadow.__init__", "Shadow._compute_B", "Shadow._root_equation", "Shadow._intensity_blue_sch", "Shadow._intensity_red_sch",
      "Shadow._intensity", "Shadow._intensity_from_event_horizon")


@contextlib.contextmanager
def stubs(newton, quad):
    """scipy's root finder and quadrature replaced by their contracts."""
    m = sys.modules.get("einsteinpy.rays.shadow")
    if m is None:
        import einsteinpy.rays.shadow
        m = sys.modules["einsteinpy.rays.shadow"]
    old = {k: getattr(m, k) for k in ("newton", "fixed_quad", "interp1d") if hasattr(m, k)}
    m.newton, m.fixed_quad, m.interp1d = newton, quad, interp
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(m, k, v)


SEEN = {}


def interp(x, y, *a, **k):
    """Interpolation as a fixed function of its abscissae and argument (its
    ordinates are recorded)."""
    SEEN["y"] = list(y)

    def at(b):
        return np.array([sum((k + 1) * xk * bk + bk * bk for k, xk in enumerate(x)) for bk in b])
    return at


def quad_of(s, rho=None):
    """Quadrature as a fixed linear functional of the integrand, odd under
    exchange of its limits: with rho, weight(limits) times the integrand at rho;
    without, a symmetric two-node rule with arbitrary node s."""
    def quad(f, a, b, args=(), n=5):
        if rho is not None:
            return (b - a) * (1 + s * (a + b) + a * b) * f(rho, *args), None
        return (b - a) * (f(a + (b - a) * s, *args) + f(b - (b - a) * s, *args)) / 2, None
    return quad


def spec(M, r, b, s):
    """Received intensity per length of matter falling freely from rest, s = -1
    for light moving in and +1 for light moving out: s g^3/(r^2 w), with
    1/g = -k.u = (1 + s w v)/f, w = |k^r| and v = |u^r| (E = 1)."""
    f = 1 - 2 * M / r
    w, v = F.sqrt(1 - b * b * f / (r * r)), F.sqrt(2 * M / r)
    return s * f ** 3 / ((1 + s * w * v) ** 3 * r * r * w)


# ---- assembly of the profile
def asm_in(n):
    def f(c):
        d = {"M": c.real("M", 1, 1.4, positive=True), "fov": c.real("fov", 18, 25, positive=True), "s": c.real("s", 0.2, 0.45, positive=True),
             "limit": c.real("limit", 0.01, 0.1, positive=True)}
        c.assume(d["fov"] > 6 * d["M"], d["limit"] < 5 * d["M"])
        for k in range(n):
            d[f"z{k}"] = c.real(f"z{k}", 9 + k, 10 + k, positive=True)
        d["rho"], d["rt"] = c.real("rho", 26, 40, positive=True), c.real("rt", 5, 9, positive=True)
        c.assume(d["rho"] > 2 * d["M"], d["rt"] > 2 * d["M"], d["rho"] > d["fov"], d["limit"] > 0)
        return d
    return f


def asm_scen(n, real, units=("kg", "km"), how="kw"):
    def scenario(mk, i):
        from einsteinpy.rays import Shadow
        asked = []

        def newton(f, x0, *a, args=(), **k):
            j = len(asked)
            asked.append(f(i["rt"], *args))
            return i[f"z{j}"] if j in real else complex(i[f"z{j}"] if not mk.symbolic else 1.0, 0.5)
        one = {"kg": 1, "g": 1000, "km": 1, "m": 1000}
        M, fov = (mk.q(i[k] * one[un], u.Unit(un)) for k, un in zip(("M", "fov"), units))
        with stubs(newton, quad_of(i["s"], i["rho"])):
            s = Shadow(M, n, fov, i["limit"]) if how in ("kw", "smooth") else Shadow(mass=M, n_rays=n, fov=fov)
            if how == "smooth":
                s.smoothen(points=4)
        return {"b": list(s.b), "b_crit": s.b_crit.value, "horizon": s.horizon, "bfin": list(s.bfin), "z": [list(x) for x in s.z], "k0": list(s.k0), "k1": list(s.k1),
                "asked": asked, "intensity": list(s.intensity), "fb1": list(s.fb1), "fb2": list(s.fb2), "y": SEEN.get("y"), "units": f"{s.mass.unit} {s.fov.unit} {s.b_crit.unit}"}
    return scenario


def asm_claims(n, real, how="kw"):
    def f(c, out, i):
        M, fov, s = lift(i["M"]), lift(i["fov"]), lift(i["s"])
        limit = i["limit"] if how in ("kw", "smooth") else lift(Fraction(1, 1000))
        crit = 3 * F.sqrt(lift(3)) * M
        grid = [crit + (fov - crit) * Fraction(k, n - 1) for k in range(n)]
        keep = sorted(real)
        m = len(keep)
        b2 = [limit + (crit - limit) * Fraction(k, m - 1) if m > 1 else limit for k in range(m)]
        rho = lift(i["rho"])
        blue, red = (lambda b: spec(M, rho, b, -1)), (lambda b: spec(M, rho, b, 1))

        def integral(g, a, e, b):
            return (e - a) * (1 + s * (a + e) + a * e) * g(b)
        below = [integral(red, 2 * M, fov, b) for b in b2]
        above = [integral(blue, fov, lift(i[f"z{k}"]), grid[k]) + integral(red, lift(i[f"z{k}"]), fov, grid[k]) for k in keep]
        r = [Eq("critical impact parameter", out["b_crit"], crit), Eq("horizon", out["horizon"], 2 * M), Fact("units", out["units"] == "kg km kg")]

        def seq(name, got, want):
            r.append(Fact(name + " count", len(got) == len(want)))
            for k, (a, b) in enumerate(zip(got, want)):
                r.append(Eq(f"{name}{k}", a, b))
        seq("impact parameters", out["b"], grid)
        r.append(Fact("turning points asked for", len(out["asked"]) == n))
        rt = lift(i["rt"])
        for k, (fk, bk) in enumerate(zip(out["asked"], grid)):
            # (f + b)^2 (r - 2M) = r^3, f + b > 0: zero exactly where r^3 = b^2 (r - 2M)
            r += [Eq(f"turning point equation{k}", (lift(fk) + bk) ** 2 * (rt - 2 * M), rt ** 3), Holds(f"branch{k}", cmp0(lift(fk) + bk, ">"))]
        seq("rays kept", out["bfin"], [grid[k] for k in keep])
        for j, k in enumerate(keep):
            seq(f"ray {j} ", out["z"][j], [grid[k], i[f"z{k}"]])
        seq("intensity above", out["k0"], above)
        seq("intensity below", out["k1"], below)
        if how == "smooth":
            xs_, ys = b2 + [grid[k] for k in keep], below + above
            new = [limit + (fov - limit) * Fraction(k, 3) for k in range(4)]
            seq("smooth profile", out["intensity"], [sum((k + 1) * x * b + b * b for k, x in enumerate(xs_)) for b in new])
            seq("profile interpolated", out["y"], ys)
            seq("smooth b", out["fb1"], new)
            seq("mirrored smooth b", out["fb2"], [-b for b in new])
            return r
        seq("profile", out["intensity"], below + above)
        seq("profile b", out["fb1"], b2 + [grid[k] for k in keep])
        seq("mirrored b", out["fb2"], [-b for b in b2 + [grid[k] for k in keep]])
        return r
    return f


def asm(name, n, real, units=("kg", "km"), how="kw"):
    return simple_case(name, asm_in(n), asm_scen(n, real, units, how), asm_claims(n, real, how), functions=FN, points=2, check_defined=False,
                       bounds=f"{n} rays of which {sorted(real)} have a real turning point, every mass, field of view and turning point; integrand at every radius beyond the field of view, "
                              f"quadrature = a fixed functional odd in its limits, mass in {units[0]}, distances in {units[1]}")


CASES = [asm("profile", 3, {0, 1, 2}), asm("dropped_ray", 4, {0, 2, 3}), asm("units", 2, {0, 1}, ("g", "m")), asm("defaults", 2, {0, 1}, how="default"),
         asm("one_ray_kept", 3, {1}), asm("smoothed", 2, {0, 1}, how="smooth")]
