"""C14: one step of the geodesic integrator of order n agrees with Hamilton's
equations of the metric through h^n."""
import itertools
import math

from symx import taylor as T
from symx.harness import Near
from .common import *

ORDERS = (2, 4, 6, 8)


class JetMetric:
    """Polynomial contravariant metric g^{ab}(x) = sum coef * x_i x_j ...:
    coefs maps (a, b, (i, j, ...)) with a <= b to a name in the inputs or a
    number.  Callable the way a user-supplied metric is (positions may be plain
    numbers, symbolic numbers or dual numbers)."""

    __name__ = "JetMetric"

    def __init__(self, coefs, i):
        self.c = [(k, i[v] if isinstance(v, str) else v) for k, v in coefs.items()]

    def __call__(self, x, *params):
        g = np.zeros((4, 4), dtype=object)
        mono = {}
        for (a, b, ix), co in self.c:
            if ix not in mono:
                m = 1
                for k in ix:
                    m = x[k] * m
                mono[ix] = m
            g[a, b] = g[a, b] + co * mono[ix]
        for a in range(4):
            for b in range(a):
                g[a, b] = g[b, a]
        if any(isinstance(v, R.SymReal) for v in g.ravel()) or isinstance(x[0], R.SymReal):
            from symx.nproxy import SymArray
            return g.view(SymArray)
        if any(type(v).__name__ == "DualNumber" for v in g.ravel()):
            return g
        return g.astype(float)

    def value(self, x):
        g = [[0] * 4 for _ in range(4)]
        for (a, b, ix), co in self.c:
            m = co
            for k in ix:
                m = m * x[k]
            g[a][b] = g[a][b] + m
            if a != b:
                g[b][a] = g[b][a] + m
        return g

    def deriv(self, x, k):
        g = [[0] * 4 for _ in range(4)]
        for (a, b, ix), co in self.c:
            n = ix.count(k)
            if not n:
                continue
            rest = list(ix)
            rest.remove(k)
            m = co * n
            for j in rest:
                m = m * x[j]
            g[a][b] = g[a][b] + m
            if a != b:
                g[b][a] = g[b][a] + m
        return g

    def hamilton(self, z):
        """dq/dl = g p, dp/dl = -1/2 d(g) p p."""
        q, p = z[:4], z[4:]
        g = self.value(q)
        dq = [sum((g[a][b] * p[b] for b in range(4)), 0) for a in range(4)]
        dp = []
        for k in range(4):
            d = self.deriv(q, k)
            s = 0
            for a in range(4):
                for b in range(4):
                    s = s + d[a][b] * p[a] * p[b]
            dp.append(-(s / 2) if not isinstance(s, int) else 0)
        return dq + dp


def full_jet(deg):
    co = {}
    for a in range(4):
        for b in range(a, 4):
            for n in range(deg + 1):
                for ix in itertools.combinations_with_replacement(range(4), n):
                    co[(a, b, ix)] = "g" + "".join(map(str, (a, b) + ix))
    return co


def inputs(coefs, order, active):
    def f(c):
        d = {}
        for v in coefs.values():
            if isinstance(v, str) and v not in d:
                d[v] = c.real(v, -0.9, 0.9)
        for k in active:
            d[f"p{k}"] = c.real(f"p{k}", -0.9, 0.9)
        d["w"] = c.real("w", 0.3, 0.9)
        d["h"] = c.real("h", 1e-4, 2e-4)
        T.truncate(d["h"], order)
        return d
    return f


def start(i):
    z = R.lift(0) if any(isinstance(v, R.SymReal) for v in i.values()) else 0.0
    return [z] * 4, [i.get(f"p{k}", z) for k in range(4)]


def step(mk, i, coefs, order, h):
    from einsteinpy.integrators import GeodesicIntegrator
    q0, p0 = start(i)
    o = GeodesicIntegrator(metric=JetMetric(coefs, i), metric_params=(), q0=mk.arr(q0), p0=mk.arr(p0), steps=1,
                           delta=h, order=order, omega=i["w"], suppress_warnings=True)
    o.step()
    r = o.results[-1]
    return {"q": list(r[0]), "p": list(r[1])}


def scen(coefs, order):
    return lambda mk, i: step(mk, i, coefs, order, i["h"])


def claims(coefs, order):
    def f(c, out, i):
        q0, p0 = start(i)
        ref = T.flow(JetMetric(coefs, i).hamilton, q0 + p0, i["h"])
        got = list(out["q"]) + list(out["p"])
        cl = []
        for n in range(8):
            for k in range(order + 1):
                a, b = T.coeff(R.lift(got[n]), i["h"], k), T.coeff(R.lift(ref[n]), i["h"], k)
                nm = f"{'qp'[n // 4]}{n % 4} h^{k}"
                cl.append(Eq(nm, a, b) if order == 2 else Near(nm, a, b))
        return cl
    return f


def confirm(coefs, order):
    """Observed order of the real integrator against a tight reference."""
    def f(mk, i):
        from scipy.integrate import solve_ivp
        J = JetMetric(coefs, i)
        q0, p0 = start(i)
        errs = []
        for h in (0.4, 0.2, 0.1):
            s = solve_ivp(lambda t, z: J.hamilton(list(z)), (0, h), q0 + p0, rtol=3e-14, atol=1e-15, method="DOP853")
            r = step(mk, i, coefs, order, h)
            errs.append(max(abs(a - b) for a, b in zip(s.y[:, -1], r["q"] + r["p"])))
        # below rounding noise the order cannot be observed
        obs = [math.log2(errs[k] / errs[k + 1]) for k in range(2) if errs[k + 1] > 3e-13]
        return {"broken": bool(obs) and obs[-1] < order + 0.4, "what": f"observed local error exponents {obs} (need {order + 1}), errors {errs}",
                "errors": errs}
    return f


# order 4+: metrics depending on one coordinate
def red(deg, extra=()):
    co = {(0, 0, ()): -1, (1, 1, ()): 1}
    for n in range(1, deg + 1):
        co[(0, 0, (1,) * n)] = f"b{n}"
    for n in range(1, 3):
        if "f" in extra:
            co[(1, 1, (1,) * n)] = f"f{n}"
    if "k" in extra:
        co[(0, 1, (1,))] = "k1"
    return co


def two(deg, comps, coords):
    co = {(a, a, ()): (-1 if a == 0 else 1) for a in range(4)}
    for a, b in comps:
        for n in range(1, deg + 1):
            for ix in itertools.combinations_with_replacement(coords, n):
                co[(a, b, ix)] = "g" + "".join(map(str, (a, b) + ix))
    return co


def case(name, coefs, order, active, **kw):
    return simple_case(name, inputs(coefs, order, active), scen(coefs, order), claims(coefs, order),
                       confirm=staticmethod(confirm(coefs, order)),
                       functions=("GeodesicIntegrator.step", "GeodesicIntegrator._ord_*", "_flow_A", "_flow_B", "_flow_mixed",
                                  "_PartHamFlow", "_Z", "_jacobian_g", "DualNumber"), points=1, vtol=1e-6, check_defined=False,
                       angle_pi=False, **kw)


def bad_scen(mk, i):
    from einsteinpy.integrators import GeodesicIntegrator
    z = mk.arr([0.0] * 4)
    return {str(n): mk.attempt(lambda: GeodesicIntegrator(metric=JetMetric({}, i), metric_params=(), q0=z, p0=z, order=n), Exception)
            for n in (0, 1, 3, 5, 7, 9, 10, 12, -2, 2.5, "2", None)}


CASES = [case("order2_full", full_jet(2), 2, range(4), bounds="Taylor coefficients h^0..h^2; every metric 2-jet (150 coefficients), all momenta, all omega"),
         case("order4", red(4, "fk"), 4, (0, 1), bounds="h^0..h^4; g00 quartic, g11 quadratic, g01 linear in one coordinate; |coefficients|,|p|,|omega|<=1; tolerance 1e-9"),
         case("order4_two", two(2, ((0, 0), (0, 1), (1, 1)), (0, 1)), 4, (0, 1),
              bounds="h^0..h^4; g00, g01, g11 generic quadratic in two coordinates; unit box; tolerance 1e-9"),
         case("order4_mixed", two(1, ((0, 3), (1, 2), (3, 3)), (1, 2)), 4, (0, 1, 2, 3),
              bounds="h^0..h^4; g03, g12, g33 linear in two coordinates, all momenta; unit box; tolerance 1e-9"),
         case("order6", red(4, "f"), 6, (0, 1), bounds="h^0..h^6; g00 quartic, g11 quadratic in one coordinate; unit box; tolerance 1e-9"),
         case("order8", red(2), 8, (0, 1), bounds="h^0..h^8; g00 quadratic in one coordinate; unit box; tolerance 1e-9"),
         case("order6_deep", red(6, "f"), 6, (0, 1), thorough_only=True, bounds="h^0..h^6; g00 sextic, g11 quadratic"),
         case("order8_deep", red(4), 8, (0, 1), thorough_only=True, bounds="h^0..h^8; g00 quartic"),
         simple_case("unsupported", lambda c: {"a": c.real("a")}, bad_scen,
                     lambda c, out, i: [Fact(f"order {k} refused", type(v).__name__ == "NotImplementedError", repr(v)) for k, v in out.items()],
                     functions=("GeodesicIntegrator.__init__",), bounds="12 orders outside {2,4,6,8}")]
