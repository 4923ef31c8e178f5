"""SMT-LIB2 emission and a solver portfolio (z3-new, cvc5, z3) over processes."""
import os
import re
import resource
import shutil
import signal
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

from . import poly as P
from .poly import Poly, W, MASK, _exps
from .real import Atom, Const, NAry, Bool, eng, Not

SOLVERS = {
    "z3-new": lambda t: [shutil.which("z3-new") or "/usr/local/bin/z3-new", f"-T:{max(1, int(t))}", "-in"],
    "cvc5": lambda t: [shutil.which("cvc5") or "/usr/bin/cvc5", "--lang=smt2", f"--tlimit={int(t * 1000)}", "--produce-models", "-"],
    "z3": lambda t: [shutil.which("z3") or "/usr/bin/z3", f"-T:{max(1, int(t))}", "-in"],
}

STATS = {"queries": 0, "time": 0.0, "by": {}, "unsat": 0, "sat": 0, "unknown": 0}
_lock = threading.Lock()


class Emitter:
    """Turns Bools over polynomials into SMT-LIB.  angle_mode: gen index of the
    sine -> 't' | 'pi' | 'raw'."""

    def __init__(self, mode=None, default="t"):
        self.mode = mode or {}
        self.default = default
        self.decls = {}
        self.asserts = []
        self.seen = set()
        self.queue = []

    def vname(self, i):
        return "|" + P.CTX.names[i] + "|"

    def angmode(self, sidx):
        return self.mode.get(sidx, self.default)

    def touch(self, i):
        if i in self.seen:
            return
        self.seen.add(i)
        inf = eng().info[i]
        k = inf.get("kind")
        if k in ("sin", "cos"):
            s = i if k == "sin" else inf["pair"]
            c = eng().info[s]["pair"]
            for q in (s, c):
                self.seen.add(q)
            m = self.angmode(s)
            if m == "t":
                self.decls[("t", s)] = "|t." + P.CTX.names[s] + "|"
                if eng().info[s].get("polar"):
                    self.asserts.append(f"(> {self.decls[('t', s)]} 0)")
            elif m == "raw":
                self.decls[s] = self.vname(s)
                self.decls[c] = self.vname(c)
                a, b = self.vname(s), self.vname(c)
                self.asserts.append(f"(= (+ (* {a} {a}) (* {b} {b})) 1)")
                if eng().info[s].get("polar"):
                    self.asserts.append(f"(> {a} 0)")
            for b in eng().info[s].get("constraints", ()):
                self.queue.append(b)
        else:
            self.decls[i] = self.vname(i)
            for b in inf.get("constraints", ()):
                self.queue.append(b)

    def poly(self, p):
        """(smt term, positive factor dropped silently)"""
        if p.is_const():
            return num(p.const_value())
        angs = {}
        gens = p.gens()
        for g in gens:
            self.touch(g)
            inf = eng().info[g]
            if inf.get("kind") in ("sin", "cos"):
                s = g if inf["kind"] == "sin" else inf["pair"]
                if self.angmode(s) in ("t", "pi"):
                    angs[s] = inf["pair"] if inf["kind"] == "sin" else g
        # common denominator of coefficients (positive): drop
        from math import gcd
        den = 1
        for c in p.d.values():
            d = Fraction(c).denominator
            den = den * d // gcd(den, d)
        tang = {s: c for s, c in angs.items() if self.angmode(s) == "t"}
        pang = {s: c for s, c in angs.items() if self.angmode(s) == "pi"}
        deg = {}
        for s, c in tang.items():
            deg[s] = max(((m >> (s * W)) & MASK) + ((m >> (c * W)) & MASK) for m in p.d)
        terms = []
        inv = {}
        for s, c in tang.items():
            inv[s] = ("s", s)
            inv[c] = ("c", s)
        pset = {}
        for s, c in pang.items():
            pset[s] = 0
            pset[c] = -1
        for m, co in p.d.items():
            co = int(co * den)
            fs = []
            cur = {s: 0 for s in tang}
            for i, e in _exps(m):
                if i in inv:
                    k, s = inv[i]
                    cur[s] += e
                    t = self.decls[("t", s)]
                    if k == "s":
                        co *= 2 ** e
                        fs += [t] * e
                    else:
                        fs += [f"(- 1 (* {t} {t}))"] * e
                elif i in pset:
                    co = co * (pset[i] ** e)
                else:
                    fs += [self.vname(i)] * e
            if not co:
                continue
            for s, k in cur.items():
                t = self.decls[("t", s)]
                fs += [f"(+ 1 (* {t} {t}))"] * (deg[s] - k)
            if fs:
                body = fs[0] if len(fs) == 1 else "(* " + " ".join(fs) + ")"
                terms.append(body if co == 1 else f"(* {num(co)} {body})")
            else:
                terms.append(num(co))
        if not terms:
            return "0"
        return terms[0] if len(terms) == 1 else "(+ " + " ".join(terms) + ")"

    def boolean(self, b):
        if isinstance(b, Const):
            return "true" if b.v else "false"
        if isinstance(b, Atom):
            t = self.poly(b.p)
            if b.op == "==":
                return f"(= {t} 0)"
            if b.op == "!=":
                return f"(not (= {t} 0))"
            return f"({b.op} {t} 0)"
        if isinstance(b, EqRaw):
            l = self.poly_product(b.l)
            r = self.poly_product(b.r)
            return f"(not (= {l} {r}))" if b.neg else f"(= {l} {r})"
        return f"({b.op} " + " ".join(self.boolean(a) for a in b.args) + ")"

    def poly_product(self, ps):
        raise NotImplementedError

    def script(self, bools, model=True, logic="QF_NRA"):
        body = []
        for b in bools:
            body.append(self.boolean(b))
        extra = []
        done = set()
        while self.queue:
            b = self.queue.pop()
            if b in done:
                continue
            done.add(b)
            extra.append(self.boolean(b))
        vs = list(self.decls.values())
        out = [f"(set-logic {logic})"]
        out += [f"(declare-const {v} Real)" for v in vs]
        out += [f"(assert {a})" for a in self.asserts]
        out += [f"(assert {a})" for a in extra]
        out += [f"(assert {a})" for a in body]
        out.append("(check-sat)")
        if model and vs:
            out.append("(get-value (" + " ".join(vs) + "))")
        self.vars = vs
        return "\n".join(out) + "\n"


class EqRaw(Bool):
    pass


def num(c):
    c = Fraction(c)
    if c < 0:
        return f"(- {num(-c)})"
    if c.denominator == 1:
        return str(c.numerator)
    return f"(/ {c.numerator} {c.denominator})"


def angles_in(bools):
    """sine gens of angles reachable from bools (through constraints)."""
    seen, out, st = set(), set(), list(bools)
    sb = set()
    while st:
        b = st.pop()
        if id(b) in sb:
            continue
        sb.add(id(b))
        if isinstance(b, NAry):
            st += list(b.args)
        elif isinstance(b, Atom):
            for g in b.p.gens():
                if g in seen:
                    continue
                seen.add(g)
                inf = eng().info[g]
                if inf.get("kind") in ("sin", "cos"):
                    s = g if inf["kind"] == "sin" else inf["pair"]
                    out.add(s)
                    st += list(eng().info[s].get("constraints", ()))
                st += list(inf.get("constraints", ()))
    return out


def _run(name, text, timeout, procs):
    t0 = time.time()
    try:
        p = subprocess.Popen(SOLVERS[name](timeout), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, preexec_fn=_limits)
    except OSError as ex:
        return name, "unknown", f"cannot start {name}: {ex}", 0.0
    procs.append(p)
    try:
        out, _ = p.communicate(text, timeout=timeout + 3)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return name, "unknown", "timeout", time.time() - t0
    dt = time.time() - t0
    first = out.strip().split("\n", 1)[0].strip() if out.strip() else ""
    if first == "unsat":
        return name, "unsat", out, dt
    if first == "sat" and "(error" not in out.split("\n", 1)[0]:
        return name, "sat", out, dt
    return name, "unknown", out[:300], dt


def _limits():
    os.setsid()
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def solve(text, timeout=20, solvers=("z3-new",)):
    """Race the solvers; first definite answer wins.  Returns (verdict, out, solver, seconds)."""
    procs = []
    res = ("unknown", "", None, 0.0)
    t0 = time.time()
    if len(solvers) == 1:
        name, v, out, dt = _run(solvers[0], text, timeout, procs)
        res = (v, out, name, dt)
    else:
        ev = threading.Event()
        results = []

        def go(n):
            r = _run(n, text, timeout, procs)
            results.append(r)
            if r[1] != "unknown" or len(results) == len(solvers):
                ev.set()
        ths = [threading.Thread(target=go, args=(n,), daemon=True) for n in solvers]
        for t in ths:
            t.start()
        ev.wait(timeout + 6)
        win = [r for r in results if r[1] != "unknown"]
        for p in procs:
            if p.poll() is None:
                try:
                    p.kill()
                except OSError:
                    pass
        if win:
            n, v, out, dt = win[0]
            res = (v, out, n, dt)
        else:
            res = ("unknown", "; ".join(f"{r[0]}: {r[2][:120]}" for r in results), None, time.time() - t0)
    with _lock:
        STATS["queries"] += 1
        STATS["time"] += res[3]
        STATS[res[0]] += 1
        if res[2]:
            STATS["by"][res[2]] = STATS["by"].get(res[2], 0) + 1
    return res


_tok = re.compile(r"\|[^|]*\||[()]|[^\s()|]+")


def parse_values(out):
    """Parse the get-value answer into {name: float}."""
    body = out.split("\n", 1)[1] if "\n" in out else ""
    toks = _tok.findall(body)
    pos = [0]

    def rd():
        t = toks[pos[0]]
        pos[0] += 1
        if t == "(":
            l = []
            while toks[pos[0]] != ")":
                l.append(rd())
            pos[0] += 1
            return l
        return t

    def val(e):
        if isinstance(e, str):
            e = e.rstrip("?")
            return Fraction(e)
        if e[0] == "-" and len(e) == 2:
            return -val(e[1])
        if e[0] == "/":
            return Fraction(val(e[1])) / Fraction(val(e[2]))
        if e[0] == "+":
            return sum(val(x) for x in e[1:])
        if e[0] == "*":
            r = Fraction(1)
            for x in e[1:]:
                r *= val(x)
            return r
        raise ValueError(str(e)[:80])
    env = {}
    try:
        l = rd()
        for n, v in l:
            try:
                env[n.strip("|")] = float(val(v))
            except Exception:
                env[n.strip("|")] = None
    except Exception:
        return env
    return env
