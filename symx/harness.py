"""Check framework: symbolic scenarios, claims, solver discharge, replay."""
import json
import math
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

import mpmath
import numpy as np

from . import poly as P
from . import real as R
from . import funcs as F
from . import smt
from . import load as L
from .poly import Poly, W, MASK, _exps
from .real import (SymReal, Bool, Const, Atom, NAry, And, Or, Not, TRUE, FALSE, lift, eng, cmp0, Concretised)
from .quantity import SymQuantity

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


# ------------------------------------------------------------------ claims
class Claim:
    def __init__(self, label, kind, a, b=None, tol=None):
        self.label, self.kind, self.a, self.b, self.tol = label, kind, a, b, tol


def Eq(label, a, b, tol=None):
    return Claim(label, "eq", a, b, tol)


def Holds(label, cond):
    return Claim(label, "bool", R.tobool(cond))


def Near(label, a, b, tol=1e-9):
    """|a - b| <= tol for all inputs in the unit box: a and b polynomials; each
    monomial is over-approximated by an independent variable in [-1, 1]."""
    return Claim(label, "near", a, b, tol)


def AngEq(label, a, b):
    """Equal modulo 2 pi."""
    return Claim(label, "ang", lift(a), lift(b))


def Fact(label, ok, detail=""):
    """A concrete (structural) fact about a path, e.g. the exception type."""
    return Claim(label, "fact", bool(ok), detail)


def EqArr(label, a, b, tol=None):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return [Fact(label + ".shape", False, f"{a.shape} vs {b.shape}")]
    return [Eq(label + str(list(i)).replace(" ", ""), a[i], b[i], tol) for i in np.ndindex(*a.shape)]


# ------------------------------------------------------------------ flatten
def flatten(out, pre=""):
    r = {}
    if isinstance(out, dict):
        for k, v in out.items():
            r.update(flatten(v, f"{pre}.{k}" if pre else str(k)))
    elif isinstance(out, (list, tuple)):
        for i, v in enumerate(out):
            r.update(flatten(v, f"{pre}[{i}]"))
    elif isinstance(out, np.ndarray):
        if out.ndim == 0:
            r.update(flatten(out.item(), pre))
        else:
            for i in np.ndindex(*out.shape):
                r.update(flatten(out[i], f"{pre}[{','.join(map(str, i))}]"))
    elif isinstance(out, BaseException):
        r[pre] = "raise:" + type(out).__name__
    elif out is None or isinstance(out, (str, bool, np.bool_)):
        r[pre] = bool(out) if isinstance(out, np.bool_) else out
    elif type(out) is SymQuantity:
        r[pre] = out.value
    elif type(out).__name__ == "Quantity":
        r.update(flatten(out.value, pre))
    elif isinstance(out, (SymReal, Bool)):
        r[pre] = out
    else:
        r[pre] = out
    return r


# ------------------------------------------------------------------ makers
class Mk:
    """What a scenario uses to build inputs: the same code runs symbolically
    (symbolic=True) and concretely on the unpatched package."""

    def __init__(self, symbolic):
        self.symbolic = symbolic

    def q(self, v, unit):
        from astropy import units as u
        if self.symbolic:
            return SymQuantity(lift(v), unit)
        return u.Quantity(float(v), unit)

    def arr(self, xs):
        if self.symbolic:
            from .nproxy import SymArray
            return np.array(list(xs), dtype=object).view(SymArray)
        return np.array([float(x) for x in xs])

    def attempt(self, fn, *excs):
        """fn() or the exception (of the given types) it raises."""
        try:
            return fn()
        except excs as ex:
            return ex


# ------------------------------------------------------------------ numeric
def numeric(x, env):
    """mpmath value of a SymReal under env {gen index: value} (derived
    generators are filled in)."""
    x = lift(x)
    n = _pnum(x.num, env)
    for f, e in x.den:
        d = _pnum(f, env)
        if d == 0:
            raise ZeroDivisionError
        n = n / d ** e
    return n


def _pnum(p, env):
    tot = mpmath.mpf(0)
    for m, c in p.d.items():
        v = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
        for i, e in _exps(m):
            v = v * _gnum(i, env) ** e
        tot += v
    return tot


def _gnum(i, env):
    if i in env:
        return env[i]
    inf = eng().info[i]
    k = inf["kind"]
    if k == "sin":
        v = mpmath.sin(numeric(inf["arg"], env))
    elif k == "cos":
        v = mpmath.cos(numeric(inf["arg"], env))
    elif k == "root":
        a = _pnum(inf["rad"], env)
        if a < 0:
            if a > -mpmath.mpf(10) ** -30:
                a = mpmath.mpf(0)
            else:
                raise ZeroDivisionError("root of negative")
        v = a ** (mpmath.mpf(1) / inf["n"])
    elif k == "angle":
        v = mpmath.atan2(numeric(inf["sin"], env), numeric(inf["cos"], env))
    elif k == "exp":
        v = mpmath.exp(numeric(inf["arg"], env))
    elif k == "log":
        v = mpmath.log(numeric(inf["arg"], env))
    elif k == "pow":
        v = numeric(inf["base"], env) ** numeric(inf["exponent"], env)
    elif k == "const":
        v = mpmath.pi
    elif k == "abbr":
        v = numeric(inf["of"], env)
    elif k == "ufun":
        v = inf["fn"](*[numeric(a, env) for a in inf["args"]])
    elif k == "trunc" and "of" in inf:
        v = mpmath.mpf(int(numeric(inf["of"], env)))
    else:
        raise KeyError(P.CTX.names[i])
    env[i] = v
    return v


def btrue(b, env, slack=0):
    """Numeric truth; None when too close to call."""
    if isinstance(b, Const):
        return b.v
    if isinstance(b, NAry):
        vs = [btrue(a, env) for a in b.args]
        if b.op == "and":
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    v = _pnum(b.p, env)
    mag = mpmath.mpf(0)
    for m, c in b.p.d.items():
        t = abs(mpmath.mpf(Fraction(c).numerator) / Fraction(c).denominator)
        for i, e in _exps(m):
            t *= abs(_gnum(i, env)) ** e
        mag = max(mag, t)
    near = abs(v) <= mag * mpmath.mpf(10) ** -25
    if b.op == "==":
        return bool(near)
    if b.op == "!=":
        return not near
    if near:
        return True if b.op == "<=" else None
    return bool(v < 0)


class Obligation:
    def __init__(self, case, label, scripts, kind, claim, path, neg):
        self.case, self.label, self.scripts, self.kind = case, label, scripts, kind
        self.claim, self.path, self.neg = claim, path, neg
        self.verdict = None
        self.alt = None


class OutOfTime(BaseException):
    pass


def clearly_false(cl, env):
    """Why a claim over concrete outputs fails beyond rounding, or None."""
    if cl.kind == "fact":
        return (str(cl.b) or "false") if not cl.a else None
    if cl.kind == "eq":
        a, b = numeric(cl.a, env), numeric(cl.b, env)
        if abs(a - b) > max(cl.tol or 0, 1e-4) * max(abs(a), abs(b)) and abs(a - b) > 1e-9:
            return f"{mpmath.nstr(a, 12)} != {mpmath.nstr(b, 12)}"
    if cl.kind == "bool":
        return "condition is false" if bfalse(cl.a, env) else None
    return None


def bfalse(b, env):
    """False by a wide margin."""
    if isinstance(b, Const):
        return not b.v
    if isinstance(b, NAry):
        vs = [bfalse(a, env) for a in b.args]
        return any(vs) if b.op == "and" else all(vs)
    v, mag = _pnum(b.p, env), mpmath.mpf(0)
    for m, c in b.p.d.items():
        t = abs(mpmath.mpf(Fraction(c).numerator) / Fraction(c).denominator)
        for i, e in _exps(m):
            t *= abs(_gnum(i, env)) ** e
        mag = max(mag, t)
    if b.op == "!=":
        return False
    return bool((abs(v) if b.op == "==" else v) > mag * mpmath.mpf(10) ** -5)


def undump(x):
    """Outputs of the concrete runner, floats made exact."""
    if isinstance(x, dict):
        if "d" in x:
            return {k: undump(v) for k, v in x["d"]}
        if "l" in x:
            return [undump(v) for v in x["l"]]
        if "a" in x:
            a = np.empty(len(x["a"]), dtype=object)
            for i, v in enumerate(x["a"]):
                a[i] = undump(v)
            return a.reshape(x["s"])
        if "f" in x:
            raise Inconclusive(x["f"])
    if isinstance(x, float):
        return lift(Fraction(repr(x)))
    return x


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------ case run
class Case:
    """One symbolic scenario.  Subclass or fill the callables:
    inputs(c) -> dict of symbolic inputs (declared through c.real/c.angle),
    scenario(mk, inp) -> outputs, claims(c, out, inp) -> list of Claim."""
    name = "case"
    functions = ()
    bounds = ""
    expect_raise = False
    timeout = 60
    points = 2           # concrete validation points
    max_paths = 64
    solvers = ("z3-new",)
    check_defined = True
    vtol = 1e-6
    angle_pi = True      # also discharge the azimuth = pi half-line separately
    symbolic_constants = True
    prior = True         # precede every run by one with other inputs (history)

    def inputs(self, c):
        raise NotImplementedError

    def scenario(self, mk, inp):
        raise NotImplementedError

    def claims(self, c, out, inp):
        raise NotImplementedError


class Ctx:
    """Passed to Case.inputs: declares symbolic inputs with sampling ranges."""

    def __init__(self, ns):
        self.ns = ns
        self.samplers = {}

    def real(self, name, lo=None, hi=None, **kw):
        """lo/hi here are SAMPLING bounds for replay/validation points only;
        logical constraints are given by positive=, nonneg=, min=, max=."""
        mn, mx = kw.pop("min", None), kw.pop("max", None)
        x = F.real(name, lo=mn, hi=mx, **kw)
        a = lo if lo is not None else (mn if mn is not None else (0.5 if kw.get("positive") or kw.get("nonneg") else -3.0))
        b = hi if hi is not None else (mx if mx is not None else 4.0)
        self.samplers[P.CTX.names[x.num.gens()[0]]] = (a, b)
        return x

    def angle(self, name, polar=False):
        x = F.angle(name, polar)
        self.samplers[name] = (0.2, 2.9) if polar else (-3.0, 3.0)
        return x

    def assume(self, *bs):
        for b in bs:
            b = R.tobool(b)
            if isinstance(b, Const):
                if not b.v:
                    raise Inconclusive("false assumption")
                continue
            eng().assumptions.append(b)

    def diff(self, x, wrt):
        (i,) = wrt.num.gens()
        return R.pdiff(x, i)


class Run:
    def __init__(self, prop, cases, tier=None, level="other", workers=8, module=None):
        self.prop, self.cases = prop, cases
        self.module = module
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 1000003 + hash_str(prop))
        self.level = level
        self.workers = workers
        self.violations, self.extreme = [], False
        self.known = []
        self.errors = []
        self.stats = {"obligations": 0, "discharged": 0, "paths": 0, "feasibility_queries": 0,
                      "validation_points": 0, "validated_outputs": 0, "reach": 0, "trivial": 0, "normalised": 0}
        self.functions = set()
        self.notes = []
        self.samples = []
        self.per_case = []
        self.conc = None
        self.solver_time = 0.0
        self.by = {}
        self.t0 = time.time()

    # ---- concrete runner process
    def concrete(self, case, vals, confirm=False, raw=False):
        if self.conc is None or self.conc.poll() is not None:
            env = dict(os.environ)
            env.pop("NUMBA_DISABLE_JIT", None)
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["MPLBACKEND"] = "Agg"
            env.setdefault("NUMBA_CACHE_DIR", "/tmp/verif-numba-cache")
            self.conc = subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "symx", "conc.py"), self.module],
                                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                         text=True, env=env, cwd=VERIF)
        self.conc.stdin.write(json.dumps({"case": case.name, "vals": vals, "confirm": confirm, "prior": getattr(case, "prior_vals", None), "raw": raw}) + "\n")
        self.conc.stdin.flush()
        line = self.conc.stdout.readline()
        if not line:
            raise Inconclusive("concrete runner died")
        return json.loads(line)

    # ---- one case
    def run_case(self, case):
        t0 = time.time()
        self.extreme = False
        e = R.new_engine()
        ns = L.load(symbolic_constants=case.symbolic_constants)
        ctx = Ctx(ns)
        case.ctx, case.engine, case.smtctx, case.sym, case.prior_vals = ctx, e, P.CTX, [], None
        for n in ("c", "G", "ke", "Lambda0"):
            if n in ns:
                ctx.samplers[n] = None
        e.solver = self.feas
        inp = case.inputs(ctx)
        base_ass = list(e.assumptions)
        # non-vacuity of the assumptions is checked through the validation
        # point and the per-path reachability query below
        mk = Mk(True)
        e.obligations = []
        case.inp = inp
        prior = self.prior(case, e)

        def one():
            prior()
            return case.scenario(mk, inp)
        exploded = None
        try:
            paths = R.explore(one, case.max_paths)
        except R.Concretised as ex:
            if "too many" not in str(ex) or hasattr(case, "confirm"):
                raise
            exploded, paths = ex, self.sampled_paths(case, e, one)
            case.sym = []
        self.stats["paths"] += len(paths)
        obls = []
        defs = list(e.obligations)
        e.track_defined = False
        sym = []
        for pi, (pc, (st, out)) in enumerate(paths):
            e.pc = list(pc)
            e.decisions, e.pos = [], 0
            if exploded:
                e.concolic = self.follow(case, case.guides[pi])
            if st == "raise" and not case.expect_raise:
                tb = "".join(traceback.format_exception(out)[-4:])
                claims = [Fact(f"no exception on path {pi}", False, f"{type(out).__name__}: {out}\n{tb}")]
            else:
                try:
                    claims = flat_claims(case.claims(ctx, out, inp))
                except (AttributeError, TypeError, KeyError, IndexError, ValueError, ZeroDivisionError) as ex:
                    claims = [Fact(f"outputs have the expected form on path {pi}", False,
                                   f"{type(ex).__name__}: {ex}\n" + "".join(traceback.format_exception(ex)[-3:]))]
            fl = flatten(out)
            sym.append((pc, st, fl, claims))
            pre = base_ass + list(e.assumptions[len(base_ass):]) + list(pc)
            # reachability twin: the claims of this path are reached
            obls.append(self.obl(case, f"reach path {pi}", pre, None, "reach", pi))
            for cl in claims:
                obls += self.claim_obl(case, cl, pre, pi)
        if case.check_defined:
            for cond, pc, what in defs:
                obls.append(self.obl(case, f"defined: {what} [{cond!r}]"[:160], base_ass + list(pc), cond, "defined", None))
        case.sym = sym
        case.engine = e
        case.smtctx = P.CTX
        case.inp = inp
        tenc = time.time() - t0
        if exploded:
            e.concolic = None
            if not self.prescreen(case, obls):
                raise exploded
            return
        if self.prescreen(case, obls):
            self.functions.update(case.functions)
            self.per_case.append({"case": case.name, "paths": len(paths), "obligations": len(obls), "bounds": case.bounds,
                                  "wall_s": round(time.time() - t0, 2), "encode_s": round(tenc, 2), "stopped": "violated"})
            return
        # discharge
        todo = [o for o in obls if o.verdict is None]
        ex = ThreadPoolExecutor(self.workers)
        try:
            list(ex.map(lambda o: self.discharge(o, case), todo))
        finally:
            ex.shutdown(wait=False, cancel_futures=True)
        bad = []
        for o in obls:
            if o.kind == "reach":
                self.stats["reach"] += 1
                continue
            self.stats["obligations"] += 1
            if o.verdict == "unsat":
                self.stats["discharged"] += 1
            else:
                bad.append(o)
        reach = [o for o in obls if o.kind == "reach"]
        if not any(o.verdict == "sat" for o in reach):
            self.validate_reach = False
            # a concrete validation point inside the assumptions also witnesses reachability
            case.reach_unknown = True
        else:
            case.reach_unknown = False
        for o in reach:
            if o.verdict == "unsat":
                self.notes.append(f"{case.name}: {o.label} infeasible (pruned)")
        self.functions.update(case.functions)
        # validation + replay
        self.validate(case, bad)
        self.per_case.append({"case": case.name, "paths": len(paths), "obligations": len(obls) - len(reach),
                              "bounds": case.bounds, "wall_s": round(time.time() - t0, 2), "encode_s": round(tenc, 2)})

    def prior(self, case, e):
        """The scenario at one fixed other point, run before every symbolic and
        every concrete run: results must not depend on what was computed
        before (stale caches, shared defaults, ...)."""
        if not case.prior:
            return lambda: None
        state = self.rng.getstate()
        self.rng.seed(20261)
        vals = self.sample_point(case, 0)
        self.rng.setstate(state)
        if vals is None:
            return lambda: None
        case.prior_vals = vals

        def go():
            keep = e.track_defined, list(e.pc), e.concolic, list(e.notes), e.solver
            e.track_defined, e.concolic = False, self.follow(case, vals)
            try:
                case.scenario(Mk(False), dict(vals))
            except Exception:
                pass
            finally:
                e.track_defined, e.pc, e.concolic, e.notes, e.solver = keep
        return go

    def sampled_paths(self, case, e, one):
        """Only the paths of the points the prescreen will look at, when there
        are too many paths to explore."""
        state, paths, case.guides = self.rng.getstate(), [], []
        for k in range(2):
            vals = self.sample_point(case, k)
            if vals is None:
                break
            ask = self.follow(case, vals)

            def choose(b):
                v = ask(b)
                e.pc.append(b if v else Not(b))
                return v
            e.decisions, e.pos, e.pc, e.concolic = [], 0, [], choose
            try:
                r = ("ok", one())
            except (R.Concretised, P.TooBig):
                continue
            except Exception as ex:
                r = ("raise", ex)
            finally:
                e.concolic = None
            paths.append((tuple(e.pc), r))
            case.guides.append(vals)
        self.rng.setstate(state)
        e.pc = []
        return paths

    def follow(self, case, vals):
        env = self.env_of(case, vals)

        def f(b):
            try:
                return btrue(b, dict_view(env)) is not False
            except (ZeroDivisionError, KeyError):
                return True
        return f

    def prescreen(self, case, obls):
        """Obligations whose negation already holds at a sampled input point
        (a model of the query) and at the same point of the real code: a
        violation, without waiting for the rest of the queries."""
        if hasattr(case, "confirm") or not case.points:
            return False
        known = {l for k in load_known() if k["property"] == self.prop and k["case"] == case.name for l in k["claims"]}
        state = self.rng.getstate()
        try:
            for k in range(2):
                vals = self.sample_point(case, k)
                if vals is None:
                    return False
                env = self.env_of(case, vals)
                pi = self.path_at(case, env)
                mine = []
                for o in obls:
                    if o.path != pi or o.kind != "claim" or o.label in known or o.verdict == "unsat":
                        continue
                    try:
                        if o.claim is not None and o.claim.kind == "eq":
                            a, b = numeric(o.claim.a, env), numeric(o.claim.b, env)
                            if abs(a - b) > (o.claim.tol or 1e-7) * max(abs(a), abs(b)):
                                mine.append(o)
                        elif o.neg is not None and btrue(o.neg, env) is True:
                            mine.append(o)
                    except (ZeroDivisionError, KeyError):
                        continue
                if mine:
                    conc = self.concrete(case, vals)
                    self.stats["validation_points"] += 1
                    if self.witness(case, mine, vals, env, pi, conc):
                        return True
        except (ZeroDivisionError, KeyError, Inconclusive):
            pass
        finally:
            self.rng.setstate(state)
        return False

    def feas(self, bools):
        self.stats["feasibility_queries"] += 1
        em = smt.Emitter(default="raw")
        s = em.script(bools, model=False)
        v = smt.solve(s, 8)
        if v[0] == "unknown":
            em = smt.Emitter(default="t")
            s = em.script(bools, model=False)
            v = smt.solve(s, 8, ("z3-new", "cvc5"))
        return v[0]

    def variants(self, bools, pre):
        """SMT scripts covering all angles: generic half-angle, plus the
        azimuth = pi half-lines."""
        angs = sorted(smt.angles_in(bools))
        az = [s for s in angs if not eng().info[s].get("polar")]
        modes = [{}]
        if getattr(self, "_angle_pi", True) and len(az) <= 3:
            for s in az:
                modes += [{**m, s: "pi"} for m in modes]
        return modes

    def obl(self, case, label, pre, cond, kind, path):
        neg = Not(cond) if cond is not None else TRUE
        if isinstance(neg, Const) and not neg.v:
            o = Obligation(case, label, [], kind, None, path, neg)
            o.verdict = "unsat"
            self.stats["trivial"] += 1
            return o
        bools = list(pre) + [neg]
        self._angle_pi = case.angle_pi and kind != "reach"
        if kind == "reach":
            modes = [{}]
        else:
            modes = self.variants(bools, pre)
        scripts = []
        for m in modes:
            em = smt.Emitter(mode=m, default="t" if kind != "defined" else "raw")
            scripts.append(em.script(bools, model=True))
            if kind == "defined":
                break
        o = Obligation(case, label, scripts, kind, None, path, neg)
        return o

    def claim_obl(self, case, cl, pre, pi):
        if cl.kind == "fact":
            o = Obligation(case, cl.label, [], "fact", cl, pi, None)
            o.verdict = "unsat" if cl.a else "sat"
            return [o]
        if cl.kind == "bool":
            o = self.obl(case, cl.label, pre, cl.a, "claim", pi)
            o.claim = cl
            return [o]
        if cl.kind == "ang":
            s1, c1 = F.sincos(cl.a)
            s2, c2 = F.sincos(cl.b)
            r = self.claim_obl(case, Claim(cl.label + ".sin", "eq", s1, s2), pre, pi)
            return r + self.claim_obl(case, Claim(cl.label + ".cos", "eq", c1, c2), pre, pi)
        if cl.kind == "near":
            return [self.near_obl(case, cl, pi)]
        # equality of two rationals: let the solver compare the two sides
        if isinstance(cl.a, (str, bool)) or cl.a is None or isinstance(cl.b, (str, bool)) or cl.b is None:
            o = Obligation(case, cl.label, [], "fact", Claim(cl.label, "fact", cl.a == cl.b, f"{cl.a!r} vs {cl.b!r}"), pi, None)
            o.verdict = "unsat" if cl.a == cl.b else "sat"
            return [o]
        a, b = lift(cl.a), lift(cl.b)
        if a is NotImplemented or b is NotImplemented:
            o = Obligation(case, cl.label, [], "fact", Claim(cl.label, "fact", False, f"not numbers: {cl.a!r} vs {cl.b!r}"), pi, None)
            o.verdict = "sat"
            return [o]
        cl.a, cl.b = a, b
        raw = RawEq(a, b)
        bools = list(pre) + [raw.negated()]
        self._angle_pi = case.angle_pi
        modes = self.variants(list(pre) + [Atom(a.num, "=="), Atom(b.num, "==")] + [Atom(f, "!=") for f, _ in a.den + b.den], pre)
        scripts = []
        for m in modes:
            em = RawEmitter(mode=m, default="t")
            scripts.append(em.script(bools, model=True))
        d = a + (-b)
        o = Obligation(case, cl.label, scripts, "claim", cl, pi, cmp0(d, "!="))
        o.alt = [smt.Emitter(mode=m, default="t").script(list(pre) + [o.neg], model=True) for m in modes]
        return [o]

    def near_obl(self, case, cl, pi):
        d = lift(cl.a) + (-lift(cl.b))
        if d.den:
            raise Inconclusive("Near claim with a denominator")
        decl, terms, k0 = [], [], Fraction(0)
        for n, (m, c) in enumerate(sorted(d.num.d.items())):
            if m == 0:
                k0 = Fraction(c)
                continue
            even = all(e % 2 == 0 for _, e in _exps(m))
            decl.append(f"(declare-const m{n} Real)\n(assert (and (<= m{n} 1) (>= m{n} {0 if even else -1})))")
            terms.append(f"(* {smt.num(Fraction(c))} m{n})")
        t = "(+ " + " ".join(terms + [smt.num(k0), "0"]) + ")"
        tol = smt.num(Fraction(repr(cl.tol)))
        s = "(set-logic QF_LRA)\n" + "\n".join(decl) + f"\n(assert (or (> {t} {tol}) (< {t} (- {tol}))))\n(check-sat)\n"
        cl.a, cl.b = lift(cl.a), lift(cl.b)
        return Obligation(case, cl.label, [s], "claim", cl, pi, TRUE)

    def discharge(self, o, case):
        """Solver verdict of an obligation: every angle mode must be unsat.
        Equalities are first sent un-simplified; when the solver gives up,
        the exactly normalised difference (still an SMT query) is tried."""
        if o.verdict is not None:
            return
        quick = min(case.timeout, 10)
        worst = "unsat"
        for k, s in enumerate(o.scripts):
            tries = [(s, case.solvers, quick)]
            if o.kind != "reach":
                if o.alt:
                    tries.append((o.alt[k], ("z3-new", "cvc5"), quick))
                tries.append((s, ("z3-new", "cvc5", "z3"), case.timeout))
            for n, (sc, sol, to) in enumerate(tries):
                v = smt.solve(sc, to, sol)
                self.solver_time += v[3]
                if v[0] != "unknown":
                    break
            if v[2]:
                self.by[v[2]] = self.by.get(v[2], 0) + 1
            if v[0] == "unsat" and o.alt and n == 1:
                self.stats["normalised"] += 1
            if v[0] == "sat":
                o.verdict = "sat"
                o.model = smt.parse_values(v[1])
                return
            if v[0] == "unknown":
                worst = "unknown"
                o.why = v[1]
        o.verdict = worst

    # ---- concrete points
    def sample_point(self, case, k):
        """A concrete input point inside the assumptions: {name: float}."""
        e = case.engine
        ctx = case.ctx
        for _ in range(400):
            vals = {}
            hook = getattr(case, "sample", None)
            for n, rg in ctx.samplers.items():
                if rg is None:
                    continue
                a, b = rg
                x = self.rng.uniform(a, b)
                vals[n] = float(f"{x:.4g}")
            if hook:
                hook(self.rng, vals)
            env = self.env_of(case, vals)
            try:
                ok = all(btrue(b, env) is True for b in e.assumptions)
            except (ZeroDivisionError, KeyError):
                ok = False
            if ok:
                return vals
        return None

    def env_of(self, case, vals):
        env = {}
        names = case.smtctx.names
        info = case.engine.info
        for i, n in enumerate(names):
            if n in vals:
                env[i] = mpmath.mpf(vals[n])
            elif info[i].get("sample") is not None:
                env[i] = mpmath.mpf(info[i]["sample"])
        return env

    def path_at(self, case, env):
        for pi, (pc, st, fl, claims) in enumerate(case.sym):
            try:
                if all(btrue(b, dict_view(env)) is not False for b in pc):
                    return pi
            except ZeroDivisionError:
                continue
        return None

    def compare_outputs(self, case, pi, env, conc, tol):
        """Symbolic outputs at the point vs outputs of the real code.
        Returns list of mismatches and number compared."""
        _, st, fl, _ = case.sym[pi]
        mism, n = [], 0
        scale = {}
        for k, v in fl.items():
            if k not in conc:
                mism.append((k, "missing"))
                continue
            cv = conc[k]
            if isinstance(v, (str, bool)) or v is None:
                if cv != v:
                    mism.append((k, v, cv))
                n += 1
                continue
            if isinstance(v, Bool):
                t = btrue(v, env)
                if t is not None and bool(cv) != t:
                    mism.append((k, t, cv))
                n += 1
                continue
            if not isinstance(v, SymReal) and not R.is_num(v):
                continue
            try:
                sv = numeric(v, env)
            except ZeroDivisionError:
                mism.append((k, "undefined symbolically", cv))
                continue
            if not isinstance(cv, (int, float)) or isinstance(cv, bool) or cv != cv or cv in (math.inf, -math.inf):
                mism.append((k, float(sv), cv))
                continue
            n += 1
            grp = k.split("[")[0]
            scale[grp] = max(scale.get(grp, 0), abs(float(cv)))
            if abs(float(sv) - cv) > tol * max(abs(cv), abs(float(sv))) + getattr(case, "atol", 1e-300):
                mism.append((k, float(sv), cv))
        # forgive rounding noise relative to the largest entry of the group
        mism = [m for m in mism if not (len(m) == 3 and isinstance(m[1], float) and isinstance(m[2], (int, float))
                                        and not isinstance(m[2], bool)
                                        and abs(m[1] - m[2]) <= 1e-11 * scale.get(m[0].split("[")[0], 0))]
        return mism, n

    def validate(self, case, bad):
        R.ENG = case.engine
        P.CTX = case.smtctx
        e = case.engine
        e.track_defined = False
        e.pc = []
        # known findings: reproduce each on the real code, keep the others
        kf = [k for k in load_known() if k["property"] == self.prop and k["case"] == case.name]
        lab = {l for k in kf for l in k["claims"]}
        old = [o for o in bad if o.label in lab]
        bad = [o for o in bad if o.label not in lab]
        self.replaying_known = True
        for k in kf:
            mine = [o for o in old if o.label in k["claims"]]
            if mine and not self.reproduce(case, mine):
                bad += mine
        self.replaying_known = False
        # 1. translator validation at sampled points
        good = 0
        for k in range(case.points):
            vals = self.sample_point(case, k)
            if vals is None:
                break
            env = self.env_of(case, vals)
            pi = self.path_at(case, env)
            if pi is None:
                continue
            conc = self.concrete(case, vals)
            self.stats["validation_points"] += 1
            if bad and not hasattr(case, "confirm"):
                # violation suspected: try this point as a witness first
                if self.witness(case, bad, vals, env, pi, conc):
                    return
            if "error" in conc:
                self.errors.append(f"{case.name}: concrete run failed at {vals}: {conc['error']}")
                continue
            mism, n = self.compare_outputs(case, pi, env, conc["out"], case.vtol)
            self.stats["validated_outputs"] += n
            if mism:
                if not self.violations and self.break_at_points(case):
                    return
                R.ENG, P.CTX = case.engine, case.smtctx
                self.errors.append(f"{case.name}: encoding and real code disagree at {vals}: {mism[:3]}")
            else:
                good += 1
                if len(self.samples) < 4:
                    self.samples.append({"case": case.name, "point": vals, "outputs_compared": n})
        if case.points and not good and not bad and not any(case.name in x for x in self.errors):
            self.errors.append(f"{case.name}: no validation point inside the assumptions")
        if case.reach_unknown and not good and not bad:
            self.errors.append(f"{case.name}: no reachability witness")
        if not bad:
            return
        # 2. obligations not discharged: find a reproducible counterexample
        if self.reproduce(case, bad):
            return
        for o in bad:
            if o.kind == "defined" and o.verdict == "sat":
                self.notes.append(f"{case.name}: {o.label}: model does not give an undefined result on the real code (benign)")
                self.stats["discharged"] += 1
                continue
            m = getattr(o, "model", None)
            self.errors.append(f"{case.name}: {o.label}: {o.verdict} but no counterexample reproduced on the real code; "
                               f"model={m} {getattr(o, 'why', '')} {o.claim.b if o.claim is not None and o.kind == 'fact' else ''}")

    def reproduce(self, case, bad):
        """Find inputs at which the real code breaks one of these claims."""
        e = case.engine
        if hasattr(case, "confirm"):
            # the claim is not directly visible in one output (e.g. an order of
            # convergence): the case measures it on the real code
            hit = False
            for k in range(6):
                vals = self.sample_point(case, k)
                if vals is None:
                    break
                conc = self.concrete(case, vals, True)
                self.stats["validation_points"] += 1
                if conc.get("out", {}).get("broken"):
                    self.report(case, bad[0], conc["out"].get("what"), vals, conc, [(b.label, "") for b in bad])
                    hit = True
                    break
            return hit
        self.extreme = False
        for vals in self.candidate_points(case, bad):
            env = self.env_of(case, vals)
            try:
                if any(btrue(b, env) is not True for b in e.assumptions):
                    continue
                pi = self.path_at(case, env)
            except (ZeroDivisionError, KeyError):
                pi = None
            conc = self.concrete(case, vals)
            self.stats["validation_points"] += 1
            if self.witness(case, bad, vals, env, pi, conc):
                return True
        return False

    def candidate_points(self, case, bad):
        """Solver models (turned into inputs), then pinned random points."""
        names = set(case.ctx.samplers)
        for o in bad[:6]:
            m = getattr(o, "model", None)
            if not m:
                continue
            vals = {}
            base = self.sample_point(case, 0) or {}
            for n in names:
                if case.ctx.samplers[n] is None:
                    continue
                if m.get(n) is not None:
                    vals[n] = m[n]
                elif m.get("t.s_" + n) is not None:
                    vals[n] = 2 * math.atan(m["t.s_" + n])
                elif m.get("s_" + n) is not None and m.get("c_" + n) is not None:
                    vals[n] = math.atan2(m["s_" + n], m["c_" + n])
                elif n in base:
                    vals[n] = base[n]
            if all(case.ctx.samplers[n] is None or n in vals for n in names):
                yield vals
                v2 = dict(base)
                v2.update({n: vals[n] for n in vals if case.engine.info[case.smtctx.names.index(n)].get("kind") == "input" and abs(vals[n]) in (0.0, 1.0)})
                yield v2
        # solver-guided: constants pinned to their real values, near a sample point
        yield from self.guided(case, bad)
        for k in range(60):
            v = self.sample_point(case, k)
            if v and k % 2:
                # sparse and badly scaled inputs: no single term dominates
                for n in v:
                    if n in names and case.engine.info[case.smtctx.names.index(n)].get("kind") == "input":
                        z = self.rng.random()
                        if z < 0.35:
                            v[n] = 0.0
                        elif z < 0.6:
                            v[n] = float(f"{v[n] * 10 ** self.rng.uniform(-4, 6):.4g}")
                self.extreme = True     # overflow here is no violation
            if v:
                yield v
            self.extreme = False

    def guided(self, case, bad):
        e = case.engine
        for o in bad[:4]:
            if o.kind == "fact" or not o.scripts:
                continue
            for k in range(3):
                v = self.sample_point(case, k)
                if not v:
                    return
                names = case.smtctx.names
                for frac in (0.0, 0.5):
                    lines = []
                    keep = set()
                    for i, n in enumerate(names):
                        inf = e.info[i]
                        if inf.get("sample") is not None and n in ("c", "G", "ke", "Lambda0"):
                            lines.append((f"|{n}|", f"(assert (= |{n}| {smt.num(Fraction(repr(inf['sample'])))}))"))
                        elif n in v and inf.get("kind") == "input" and self.rng.random() >= frac:
                            lines.append((f"|{n}|", f"(assert (= |{n}| {smt.num(Fraction(repr(v[n])))}))"))
                        elif n in v and inf.get("kind") == "angle" and self.rng.random() >= frac:
                            t = Fraction(math.tan(v[n] / 2)).limit_denominator(1000)
                            lines.append((f"|t.s_{n}|", f"(assert (= |t.s_{n}| {smt.num(t)}))"))
                    s = o.scripts[0]
                    add = "\n".join(l for nm, l in lines if f"(declare-const {nm} Real)" in s)
                    s2 = s.replace("(check-sat)", add + "\n(check-sat)")
                    r = smt.solve(s2, 5, ("z3-new",))
                    if r[0] == "sat":
                        m = smt.parse_values(r[1])
                        vals = dict(v)
                        for n in v:
                            if m.get(n) is not None:
                                vals[n] = m[n]
                            elif m.get("t.s_" + n) is not None:
                                vals[n] = 2 * math.atan(m["t.s_" + n])
                        yield vals
                        break

    def witness(self, case, bad, vals, env, pi, conc):
        """Does the real code break an undischarged claim at this point?"""
        broken = []
        out = conc.get("out")
        nonfinite = None
        if "error" in conc:
            nonfinite = "raised " + conc["error"].strip().split("\n")[-1]
        elif out is not None:
            for k, v in out.items():
                if v == "nan" or v == "inf" or (isinstance(v, float) and (v != v or v in (math.inf, -math.inf))):
                    nonfinite = f"{k} = {v}"
                    break
        for o in bad:
            if o.kind == "defined" or (o.kind == "fact" and "no exception" in o.label) or (o.kind == "fact" and "expected form" in o.label):
                if nonfinite and not self.extreme:
                    broken.append((o, nonfinite))
                continue
            if pi is None or "error" in conc:
                continue
            if o.kind == "fact":
                if o.path == pi:
                    mism, _ = self.compare_outputs(case, pi, env, out, 1e-5)
                    if not mism:
                        broken.append((o, str(o.claim.b)))
                continue
            if o.path != pi:
                continue
            try:
                if o.claim is not None and o.claim.kind == "eq":
                    a, b = numeric(o.claim.a, env), numeric(o.claim.b, env)
                    margin = abs(a - b) / max(abs(a), abs(b), mpmath.mpf(10) ** -290)
                    if margin <= (o.claim.tol or 1e-7):
                        continue
                    what = f"{mpmath.nstr(a, 12)} != {mpmath.nstr(b, 12)}"
                else:
                    if btrue(o.neg, env) is not True:
                        continue
                    what = "condition is false"
            except ZeroDivisionError:
                continue
            mism, _ = self.compare_outputs(case, pi, env, out, 1e-5)
            if mism:
                continue
            broken.append((o, what))
        if not broken:
            return False
        o, what = broken[0]
        self.report(case, o, what, vals, conc, [(b.label, w) for b, w in broken])
        return True

    def report(self, case, o, what, vals, conc, broken):
        kf = [k for k in load_known() if k["property"] == self.prop and k["case"] == case.name]
        labels = {l for l, _ in broken}
        if getattr(self, "replaying_known", False):
            for k in kf:
                if labels <= set(k["claims"]):
                    self.known.append((k, case.name))
            return
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{case.name}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "case": case.name, "inputs": vals, "claim": o.label, "observed": what,
                       "all_broken": broken[:40], "confirm": hasattr(case, "confirm"), "real_outputs": {k: conc.get("out", {}).get(k) for k in list(conc.get("out", {}) or {})[:60]},
                       "error": conc.get("error"), "module": self.module,
                       "prior": getattr(case, "prior_vals", None), "how": f"{PY} /verif/replay.py {path}"}, f, indent=1, default=str)
        self.violations.append((path, case.name, o.label, what, vals))

    # ---- everything
    def main(self):
        only = os.environ.get("VERIF_CASE")
        budget = int(os.environ.get("VERIF_BUDGET", "840" if self.tier != "thorough" else "0"))
        if budget:
            signal.signal(signal.SIGALRM, self.out_of_time)
        for c in self.cases:
            if only and c.name != only:
                continue
            if self.violations and self.tier != "thorough":
                self.notes.append("stopped at the first violated case")
                break
            left = budget - (time.time() - self.t0)
            if budget:
                signal.alarm(max(1, int(left)))
            if getattr(c, "thorough_only", False) and self.tier != "thorough":
                continue
            try:
                self.run_case(c)
            except (Concretised, P.TooBig, Inconclusive) as ex:
                self.salvage(c, ex)
            except OutOfTime:
                self.errors.append(f"{c.name}: the time budget of {budget} s ran out")
                signal.alarm(40)
                try:
                    self.break_at_points(c)
                except (OutOfTime, Exception):
                    pass
                break
            except Exception as ex:
                self.salvage(c, ex)
        if budget:
            signal.alarm(0)
        return self.finish()

    def out_of_time(self, *a):
        raise OutOfTime()

    def break_at_points(self, case, points=12):
        """Without (or against) an encoding: evaluate the claims on the outputs
        of the real code at sampled inputs.  Can only report violations that
        show at two points, never a pass."""
        if hasattr(case, "confirm") or not getattr(case, "ctx", None) or not hasattr(case, "inp"):
            return False
        R.ENG, P.CTX = case.engine, case.smtctx
        e = case.engine
        e.track_defined, e.pc, e.decisions, e.pos = False, [], [], 0
        known = {l for k in load_known() if k["property"] == self.prop and k["case"] == case.name for l in k["claims"]}
        diff, hits = case.ctx.diff, {}

        def nodiff(*a):
            raise Inconclusive("derivative of a concrete output")
        try:
            for k in range(points):
                vals = self.sample_point(case, k)
                if vals is None:
                    return False
                env = self.env_of(case, vals)
                conc = self.concrete(case, vals, raw=True)
                self.stats["validation_points"] += 1
                broken = []
                if "error" in conc:
                    if not case.expect_raise:
                        broken = [("the code raises", conc["error"])]
                else:
                    e.concolic, case.ctx.diff = self.follow(case, vals), nodiff
                    try:
                        claims = flat_claims(case.claims(case.ctx, undump(conc["raw"]), case.inp))
                    except Exception:
                        claims = []
                    finally:
                        e.concolic, case.ctx.diff = None, diff
                    for cl in claims:
                        try:
                            w = clearly_false(cl, env)
                        except Exception:
                            w = None
                        if w and cl.label not in known:
                            broken.append((cl.label, w))
                for l, w in broken:
                    hits.setdefault(l, []).append((vals, conc, w))
                for l, h in hits.items():
                    if len(h) >= 2:
                        vals, conc, w = h[-1]
                        o = Obligation(case, l, [], "claim", None, None, None)
                        self.report(case, o, w, vals, conc, broken)
                        return True
        except (Inconclusive, OSError, ValueError):
            pass
        finally:
            e.concolic, case.ctx.diff = None, diff
        return False

    def salvage(self, c, ex):
        try:
            if self.break_at_points(c):
                return
        except Exception:
            pass
        self.errors.append(f"{c.name}: could not encode: {type(ex).__name__}: {ex}\n"
                           + "".join(traceback.format_exception(ex)[-3:])[-1200:])

    def finish(self):
        if self.conc is not None:
            try:
                self.conc.stdin.close()
                self.conc.wait(5)
            except Exception:
                self.conc.kill()
        seen = set()
        for k, cn in self.known:
            t = f"KNOWN-FINDING: property={self.prop} {k['what']}"
            if t not in seen:
                seen.add(t)
                print(t)
        for path, cn, label, what, vals in self.violations:
            print(f"# {cn}: {label}: {what}")
            print(f"#   inputs: {vals}")
            print(f"VIOLATION property={self.prop} replay={path}")
        for er in self.errors:
            print(f"# ERROR {er}", file=sys.stderr)
        self.write_evidence()
        st = self.stats
        print(f"{self.prop}: {st['discharged']}/{st['obligations']} obligations discharged, {st['paths']} paths, "
              f"{smt.STATS['queries']} solver queries, {smt.STATS['time']:.1f}s solver time, "
              f"{st['validated_outputs']} outputs validated, {time.time() - self.t0:.1f}s")
        sys.stdout.flush()
        if self.violations:
            return 1
        if self.errors:
            return 2
        return 0

    def write_evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        st = self.stats
        cov = {
            "explanation": "Symbolic execution of the real functions (operator overloading on the code loaded from /repo); "
                           "each obligation is an SMT query over all inputs in the stated bounds; unsat = holds.",
            "functions_encoded": sorted(self.functions),
            "cases": self.per_case,
            "obligations": st["obligations"], "discharged": st["discharged"],
            "folded_by_engine": st["trivial"], "closed_on_normalised_difference": st["normalised"],
            "paths": st["paths"],
            "solver_queries": smt.STATS["queries"], "solver_seconds": round(smt.STATS["time"], 2),
            "solver_answers": dict(smt.STATS["by"]),
            "reachability_twins": st["reach"],
            "encoding_validation": {"points": st["validation_points"], "outputs_compared": st["validated_outputs"]},
            "known_findings": [k["what"] for k, _ in self.known],
            "checker_cmd": f"{PY} run.py {self.prop}",
            "trusted_base": ["z3 5.3 / cvc5 1.1 / z3 4.8", "symx engine (/verif/symx)", "reals for floats"],
            "samples": self.samples, "notes": self.notes[:20], "errors": self.errors[:10],
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": ["floating-point numbers are modelled as exact reals", "see DESIGN.md for the stubs"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def dict_view(d):
    return d


def flat_claims(cl):
    out = []
    for c in cl:
        if isinstance(c, (list, tuple)):
            out += flat_claims(c)
        else:
            out.append(c)
    return out


def hash_str(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k.get("status", "open") == "open"]


class RawEq(Bool):
    """a == b for two rationals, compared by the solver after multiplying out
    the denominators."""

    def __init__(self, a, b, neg=False):
        self.a, self.b, self.neg = a, b, neg

    def negated(self):
        return RawEq(self.a, self.b, not self.neg)


class RawEmitter(smt.Emitter):
    def boolean(self, b):
        if not isinstance(b, RawEq):
            return smt.Emitter.boolean(self, b)
        da, db = dict(b.a.den), dict(b.b.den)
        lcm = dict(da)
        for f, e in db.items():
            lcm[f] = max(lcm.get(f, 0), e)
        fa = [(f, lcm[f] - da.get(f, 0)) for f in lcm if lcm[f] - da.get(f, 0)]
        fb = [(f, lcm[f] - db.get(f, 0)) for f in lcm if lcm[f] - db.get(f, 0)]
        for f in lcm:
            self.side.append(f)
        # positive constants dropped by Emitter.poly must be kept here
        la, ka, ga = self.prod(b.a.num, fa)
        lb, kb, gb = self.prod(b.b.num, fb)
        # equalise: a_num = la * ka / ga ...
        l, r = self.balance(la, ka, ga, lb, kb, gb)
        t = f"(= {l} {r})"
        return f"(not {t})" if b.neg else t

    def __init__(self, *a, **k):
        smt.Emitter.__init__(self, *a, **k)
        self.side = []

    def prod(self, n, fs):
        """term, rational constant k, {angle: power of (1+t^2)} with
        value(n * prod fs) = term * k / prod (1+t^2)^g"""
        terms = []
        k = Fraction(1)
        g = {}
        for p, e in [(n, 1)] + list(fs):
            t, kk, gg = self.pterm(p)
            k *= kk ** e
            for s, d in gg.items():
                g[s] = g.get(s, 0) + d * e
            terms += [t] * e
        terms = [t for t in terms if t != "1"] or ["1"]
        return (terms[0] if len(terms) == 1 else "(* " + " ".join(terms) + ")"), k, g

    def pterm(self, p):
        from math import gcd
        if p.is_const():
            return "1" if p.d else "0", Fraction(p.const_value()) if p.d else Fraction(1), {}
        den = 1
        for c in p.d.values():
            d = Fraction(c).denominator
            den = den * d // gcd(den, d)
        t = self.poly(p)      # equals p * den * prod (1+t^2)^deg
        g = {}
        for i in p.gens():
            inf = eng().info[i]
            if inf.get("kind") in ("sin", "cos"):
                s = i if inf["kind"] == "sin" else inf["pair"]
                if self.angmode(s) == "t" and s not in g:
                    c = eng().info[s]["pair"]
                    g[s] = max(((m >> (s * W)) & MASK) + ((m >> (c * W)) & MASK) for m in p.d)
        return t, Fraction(1, den), g

    def balance(self, la, ka, ga, lb, kb, gb):
        if la == "0" or lb == "0":
            return la, lb
        def mul(l, k, extra):
            parts = []
            if k != 1:
                parts.append(smt.num(k))
            for s, d in extra.items():
                t = self.decls[("t", s)]
                parts += [f"(+ 1 (* {t} {t}))"] * d
            if not parts:
                return l
            return "(* " + " ".join(parts) + f" {l})"
        ea = {s: max(0, gb.get(s, 0) - ga.get(s, 0)) for s in set(ga) | set(gb)}
        eb = {s: max(0, ga.get(s, 0) - gb.get(s, 0)) for s in set(ga) | set(gb)}
        ra, rb = ka, kb
        # integers
        den = ra.denominator * rb.denominator
        return mul(la, Fraction(ra * den), ea), mul(lb, Fraction(rb * den), eb)

    def script(self, bools, model=True, logic="QF_NRA"):
        # the nonzero denominators are part of the definedness obligations;
        # they are assumed here
        n = len(bools)
        body = [self.boolean(b) for b in bools]
        for f in dict.fromkeys(self.side):
            body.append(smt.Emitter.boolean(self, Atom(f, "!=")))
        extra, done = [], set()
        while self.queue:
            b = self.queue.pop()
            if b in done:
                continue
            done.add(b)
            extra.append(smt.Emitter.boolean(self, b))
        vs = list(self.decls.values())
        out = [f"(set-logic {logic})"]
        out += [f"(declare-const {v} Real)" for v in vs]
        out += [f"(assert {a})" for a in self.asserts + extra + body]
        out.append("(check-sat)")
        if model and vs:
            out.append("(get-value (" + " ".join(vs) + "))")
        return "\n".join(out) + "\n"
