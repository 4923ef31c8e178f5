"""Shared pieces of the checks of einsteinpy.symbolic."""
from fractions import Fraction

import numpy as np

from .common import simple_case, Eq, EqArr, Holds, Fact, lifted, earlier
from symx.symtensor import (Arena, stubbed, pairs, jet_inputs, jets_of, ldl_inputs, ldl, fixed_metric, Geo, _s as ssum, _m as pm, _z as isz)
from symx.real import lift


def sym_case(name, inputs, scenario, claims, **kw):
    kw.setdefault("symbolic_constants", False)
    kw.setdefault("check_defined", False)
    kw.setdefault("points", 1)
    kw.setdefault("prior", False)
    kw.setdefault("vtol", 1e-6)
    kw.setdefault("atol", 1e-10)
    return simple_case(name, inputs, scenario, claims, **kw)


class Setup:
    """A family of metrics: how the value matrix at the point is given.
    kind 'ldl' (every matrix with nonzero leading minors, off-diagonal entries
    of L restricted to `off` if given), 'fix0'/'fix1' (a fixed dense rational
    matrix).  All derivatives up to second order are inputs."""

    def __init__(self, n, kind="ldl", off=None, second=True, coords=None, config="ll", truth=False, pat=None):
        self.n, self.kind, self.off, self.second, self.coords, self.config, self.truth, self.pat = n, kind, off, second, coords, config, truth, pat

    def inputs(self, c):
        d = jet_inputs(c, self.n, second=self.second, coords=self.coords, pat=self.pat)
        if self.kind == "ldl":
            d.update(ldl_inputs(c, self.n, self.off))
        return d

    def gh(self, inp):
        if self.kind == "ldl":
            return ldl(inp, self.n)
        return fixed_metric(self.n, int(self.kind[3:]))

    def geo(self, inp):
        g, h = self.gh(inp)
        dg, ddg = jets_of(inp)
        return Geo(self.n, g, h, dg, ddg)

    def arena(self, mk, inp, config=None):
        ar = Arena(mk, self.n, truth=self.truth)
        g, h = self.gh(inp)
        dg, ddg = jets_of(inp)
        return ar, ar.metric(g, dg, ddg, h, config=config or self.config)

    def bound(self):
        g = {"ldl": "value matrix L D L^T" + ("" if self.off is None else f" with L entries {self.off}")}.get(self.kind, f"fixed dense rational value matrix #{self.kind[3:]}")
        return f"dimension {self.n}, {g}, all first{' and second' if self.second else ''} derivatives symbolic" \
               + ("" if self.config == "ll" else f", metric given as {self.config}")




def earlier_tensors(n):
    """Everything once for another metric of that size (default name)."""
    import sympy
    import einsteinpy.symbolic as S
    x = sympy.symbols(f"w0:{n}")
    m = S.MetricTensor(sympy.diag(*range(2, n + 2)).tolist(), x)
    with stubbed(None):
        for k in ("ChristoffelSymbols", "RiemannCurvatureTensor", "RicciTensor", "RicciScalar", "EinsteinTensor", "SchoutenTensor", "WeylTensor"):
            with earlier():
                getattr(S, k).from_metric(m)
        with earlier():
            m.inv()


def run_stubbed(ar, fn):
    earlier_tensors(len(ar.x))
    if ar.truth:
        if ar.truth == "full":
            return fn()
        with stubbed(None):
            return fn()
    with stubbed(ar):
        return fn()


def rng(n, k):
    return np.ndindex(*([n] * k))
