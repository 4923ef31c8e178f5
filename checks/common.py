"""Shared pieces of the check modules."""
from fractions import Fraction

import contextlib
import numpy as np
from astropy import units as u

from symx.harness import Case, Eq, EqArr, Holds, AngEq, Fact
from symx import real as R
from symx import funcs as F
from symx.real import And, Or, Not, Implies


def simple_case(name_, inputs_, scenario_, claims_, **kw):
    class C(Case):
        name = name_

        def inputs(self, c):
            return inputs_(c)

        def scenario(self, mk, inp):
            return scenario_(mk, inp)

        def claims(self, c, out, inp):
            return claims_(c, out, inp)
    C.__name__ = name_
    for k, v in kw.items():
        setattr(C, k, v)
    return C()


@contextlib.contextmanager
def earlier():
    """Calls made before the ones that are checked: their results are not
    looked at, but they must not leave anything behind."""
    e = R.ENG
    keep = e.track_defined if e is not None else None
    if e is not None:
        e.track_defined = False
    try:
        yield
    except Exception:
        pass
    finally:
        if e is not None:
            e.track_defined = keep


def used(m):
    """The metric object after it has been asked about another point."""
    x, v = np.array([1.0, 0.7, 1.1, 0.4]), np.array([1.0, 0.7, 1.1, 0.4, 2.0, 0.3, 0.1, 0.2])
    for f in ("metric_covariant", "metric_contravariant", "em_potential_covariant", "em_potential_contravariant", "em_tensor_covariant",
              "em_tensor_contravariant", "_christoffels", "christoffels", "_f_vec", "f_vec", "singularities"):
        with earlier():
            g = getattr(m, f)
            g() if f == "singularities" else g(0.3, v) if "f_vec" in f else g(x)
    return m


# ---- black-hole inputs.  The sampling ranges keep r outside every horizon.
def bh_inputs(c, spin=True, charge=False, zero_spin=True):
    d = {"M": c.real("M", 2e25, 1e26, positive=True), "t": c.real("t"),
         "r": c.real("r", 0.2, 2.0, positive=True), "th": c.angle("th", polar=True), "ph": c.angle("ph")}
    if spin:
        d["a"] = c.real("a", 0.1, 0.9, min=0, max=1)
    if charge:
        d["Q"] = c.real("Q", 1e15, 5e15)
    return d


def al(c, d):
    """Spin length G M a / c^2."""
    return c.ns["G"] * d["M"] * d.get("a", 0) / c.ns["c"] ** 2


def delta_of(c, d):
    """Textbook Delta = r^2 - r_s r + alpha^2 + r_Q^2."""
    G, cc, ke = c.ns["G"], c.ns["c"], c.ns["ke"]
    rQ2 = d["Q"] ** 2 * G * ke / cc ** 4 if "Q" in d else 0
    return d["r"] ** 2 - 2 * G * d["M"] * d["r"] / cc ** 2 + al(c, d) ** 2 + rQ2


def regular(c, d):
    """Away from the horizons (where the metric components are singular)."""
    c.assume(delta_of(c, d) != 0)
    return d


def sph_coords(mk, inp):
    from einsteinpy.coordinates import Spherical
    return Spherical(mk.q(inp["t"], u.s), mk.q(inp["r"], u.m), mk.q(inp["th"], u.rad), mk.q(inp["ph"], u.rad))


def bl_coords(mk, inp):
    from einsteinpy.coordinates import BoyerLindquist
    return BoyerLindquist(mk.q(inp["t"], u.s), mk.q(inp["r"], u.m), mk.q(inp["th"], u.rad), mk.q(inp["ph"], u.rad))


def make_metric(mk, inp, kind):
    """Schwarzschild / Kerr / KerrNewman object of the real package."""
    from einsteinpy.metric import Schwarzschild, Kerr, KerrNewman
    M = mk.q(inp["M"], u.kg)
    if kind == "schwarzschild":
        return used(Schwarzschild(coords=sph_coords(mk, inp), M=M))
    a = mk.q(inp["a"], u.one)
    if kind == "kerr":
        return used(Kerr(coords=bl_coords(mk, inp), M=M, a=a))
    q = {"q": mk.q(inp["q"], u.C / u.kg)} if "q" in inp else {}
    return used(KerrNewman(coords=bl_coords(mk, inp), M=M, a=a, Q=mk.q(inp["Q"], u.C), **q))


def x_vec(mk, inp):
    return mk.arr([inp["t"], inp["r"], inp["th"], inp["ph"]])


def metric_derivs(c, g, coords):
    """dg[k,i,j] = d g_ij / d x^k of a symbolic matrix, by exact differentiation."""
    n = len(coords)
    dg = np.empty((n, n, n), dtype=object)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                dg[k, i, j] = c.diff(R.lift(g[i, j]), coords[k])
    return dg


def xs(inp):
    return [inp["t"], inp["r"], inp["th"], inp["ph"]]


def lifted(a):
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = R.lift(a[i])
    return out


# ---- the physical constants the symbolic c, G, k_e stand for
CODATA = {"c": 299792458.0, "G": 6.6743e-11, "ke": 8.9875517923e9, "eps0": 8.8541878128e-12}


def const_scen(mk, i):
    from einsteinpy import constant as k
    return {"z": i["z"], "c": float(k.c.si.value), "G": float(k.G.si.value), "ke": float(k.coulombs_const.si.value), "eps0": float(k.eps0.si.value)}


def const_claims(c, out, i):
    return [Fact(f"value of {n}", abs(out[n] / v - 1) < 2e-4, f"{out[n]} instead of {v}") for n, v in CODATA.items()] + [Eq("z", out["z"], i["z"])]


CONSTANTS = simple_case("constants", lambda c: {"z": c.real("z", 0, 1)}, const_scen, const_claims, symbolic_constants=False,
                        functions=("constant",), bounds="c, G, eps0, 1/(4 pi eps0) within 2e-4 of CODATA")
