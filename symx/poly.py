"""Sparse multivariate polynomials over Q, in generators with rewriting rules.

A monomial is a packed Python int: generator i owns bits [i*W, (i+1)*W).
A polynomial is a dict {monomial: int|Fraction}.  Polynomials are immutable.

Rules: some generators g carry a rule g**n -> polynomial (sine/cosine pairs,
roots of polynomial radicands); products are kept reduced w.r.t. the rules.
"""
from fractions import Fraction

W = 10
MASK = (1 << W) - 1
MAX_TERMS = 400000
HASHMOD = (1 << 89) - 1 - (1 << 13)


class TooBig(BaseException):
    pass


class Ctx:
    """Generator table.  One live context (module global)."""

    def __init__(self):
        self.names = []
        self.rules = {}      # index -> (n, Poly)   g**n -> Poly
        self.rulemask = 0
        self.trunc = None    # (index, maxdeg): drop terms above that degree

    def gen(self, name):
        i = len(self.names)
        self.names.append(name)
        return i

    def set_rule(self, i, n, p):
        self.rules[i] = (n, p)
        self.rulemask |= MASK << (i * W)


CTX = Ctx()


def reset():
    global CTX
    CTX = Ctx()


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    # -- constructors
    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({0: c}) if c else ZERO

    @staticmethod
    def var(i, e=1):
        return Poly({e << (i * W): 1})

    # -- basics
    def __bool__(self):
        return bool(self.d)

    def key(self):
        """A hash (never use it as an identity: the polynomial itself is)."""
        if self._h is None:
            # int hashes are mod 2**61 - 1, under which packed monomials of
            # generators 61 apart would all collide
            self._h = hash(frozenset([(m % HASHMOD, c) for m, c in self.d.items()]))
        return self._h

    def __hash__(self):
        return self.key()

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and 0 in self.d)

    def const_value(self):
        return self.d.get(0, 0)

    def __len__(self):
        return len(self.d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __add__(self, o):
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = _norm(v)
                else:
                    del r[m]
        return Poly(r)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if not k:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.d.items()})

    def __mul__(self, o):
        a, b = self.d, o.d
        if not a or not b:
            return ZERO
        if len(a) > len(b):
            a, b = b, a
        if len(a) == 1:
            (m0, c0), = a.items()
            if m0 == 0:
                return (o if b is o.d else self).scale(c0)
        if CTX.trunc is not None:
            return _mul_trunc(a, b)
        if len(a) * len(b) > 40_000_000:
            raise TooBig()
        r = {}
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        r = {m: _norm(c) for m, c in r.items() if c}
        if len(r) > MAX_TERMS:
            raise TooBig()
        return _reduce(r)

    def __pow__(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def gens(self):
        m = 0
        for k in self.d:
            m |= k
        out = []
        i = 0
        while m:
            if m & MASK:
                out.append(i)
            m >>= W
            i += 1
        return out

    def degree(self, i):
        s = i * W
        return max(((k >> s) & MASK for k in self.d), default=0)

    def coeffs_in(self, i):
        """{deg: Poly} by powers of generator i."""
        s = i * W
        out = {}
        for k, c in self.d.items():
            e = (k >> s) & MASK
            out.setdefault(e, {})[k - (e << s)] = c
        return {e: Poly(d) for e, d in out.items()}

    def partial(self, i):
        s = i * W
        r = {}
        for k, c in self.d.items():
            e = (k >> s) & MASK
            if e:
                r[k - (1 << s)] = _norm(c * e)
        return Poly(r)

    def content(self):
        """(constant, common monomial): self = const * mono * primitive, with
        the primitive part having integer coprime coefficients and a positive
        leading coefficient."""
        from math import gcd
        if not self.d:
            return 0, 0
        den = 1
        num = 0
        mono = None
        for m, c in self.d.items():
            f = Fraction(c)
            den = den * f.denominator // gcd(den, f.denominator)
        for m, c in self.d.items():
            num = gcd(num, int(Fraction(c) * den))
        it = iter(self.d)
        mono = next(it)
        if len(self.d) > 1:
            n = len(CTX.names)
            for i in range(n):
                s = i * W
                if not (mono >> s):
                    break
                e0 = (mono >> s) & MASK
                if not e0:
                    continue
                e = min((k >> s) & MASK for k in self.d)
                mono -= (e0 - e) << s
        lead = self.d[max(self.d)]
        k = Fraction(num, den)
        if lead < 0:
            k = -k
        return _norm(k), mono

    def primitive(self):
        """(const, mono, prim)"""
        if not self.d:
            return 0, 0, ZERO
        k, mono = self.content()
        if k == 1 and mono == 0:
            return k, mono, self
        inv = Fraction(1) / Fraction(k)
        return k, mono, Poly({m - mono: _norm(c * inv) for m, c in self.d.items()})

    def divexact(self, o):
        """Quotient or None.  Only sound as 'found q with q*o == self as plain
        polynomials' (then also equal modulo the rules)."""
        if not o.d:
            return None
        a = dict(self.d)
        lm = max(o.d)
        lc = o.d[lm]
        lme = _exps(lm)
        rest = [(m, c) for m, c in o.d.items() if m != lm]
        q = {}
        steps = 0
        import heapq
        heap = [-m for m in a]
        heapq.heapify(heap)
        limit = 4 * len(a) + 2000
        while a:
            m = -heapq.heappop(heap)
            c = a.pop(m, None)
            if c is None:
                continue
            if not c:
                continue
            steps += 1
            if steps > limit:
                return None
            for i, e in lme:
                if ((m >> (i * W)) & MASK) < e:
                    return None
            qm = m - lm
            qc = _norm(Fraction(c) / lc) if not (isinstance(c, int) and isinstance(lc, int) and c % lc == 0) else c // lc
            q[qm] = qc
            for m2, c2 in rest:
                k = qm + m2
                old = a.get(k)
                if old is None:
                    a[k] = -qc * c2
                    heapq.heappush(heap, -k)
                else:
                    v = old - qc * c2
                    a[k] = v
        return Poly({m: _norm(c) for m, c in q.items()})

    def sqrt(self):
        """Polynomial q with q*q == self (plain), or None."""
        if not self.d:
            return ZERO
        lm = max(self.d)
        if any(e & 1 for _, e in _exps(lm)):
            return None
        lc = Fraction(self.d[lm])
        if lc < 0:
            return None
        from math import isqrt
        a, b = isqrt(lc.numerator), isqrt(lc.denominator)
        if a * a != lc.numerator or b * b != lc.denominator:
            return None
        hm = 0
        for i, e in _exps(lm):
            hm += (e // 2) << (i * W)
        q = Poly({hm: _norm(Fraction(a, b))})
        lead2 = 2 * Fraction(a, b)
        rem = self - _plainmul(q, q)
        for _ in range(len(self.d) + 5):
            if not rem.d:
                return q
            m = max(rem.d)
            for i, e in _exps(hm):
                if ((m >> (i * W)) & MASK) < e:
                    return None
            if m < hm:
                return None
            t = Poly({m - hm: _norm(Fraction(rem.d[m]) / lead2)})
            if max(t.d) >= hm:
                return None
            rem = rem - _plainmul(t, q.scale(2) + t)
            q = q + t
        return None

    def evalf(self, env):
        tot = 0
        for m, c in self.d.items():
            v = c
            for i, e in _exps(m):
                v = v * env[i] ** e
            tot = tot + v
        return tot

    def __repr__(self):
        return self.to_str()

    def to_str(self, names=None):
        if not self.d:
            return "0"
        names = names or CTX.names
        out = []
        for m, c in sorted(self.d.items(), reverse=True)[:40]:
            out.append(str(c) + "".join(
                f"*{names[i]}" + (f"^{e}" if e > 1 else "") for i, e in _exps(m)))
        return " + ".join(out) + (" + ..." if len(self.d) > 40 else "")


_exps_cache = {}


def _exps(m):
    r = _exps_cache.get(m)
    if r is None:
        out = []
        i = 0
        k = m
        while k:
            e = k & MASK
            if e:
                out.append((i, e))
            k >>= W
            i += 1
        r = tuple(out)
        if len(_exps_cache) > 500000:
            _exps_cache.clear()
        _exps_cache[m] = r
    return r


def _plainmul(p, o):
    r = {}
    for m1, c1 in p.d.items():
        for m2, c2 in o.d.items():
            m = m1 + m2
            r[m] = r.get(m, 0) + c1 * c2
    return Poly({m: _norm(c) for m, c in r.items() if c})


def _mul_trunc(a, b):
    i, n = CTX.trunc
    s = i * W
    ba = [[] for _ in range(n + 1)]
    bb = [[] for _ in range(n + 1)]
    for d, bk in ((a, ba), (b, bb)):
        for m, c in d.items():
            bk[(m >> s) & MASK].append((m, c))
    r = {}
    get = r.get
    work = 0
    for j, x in enumerate(ba):
        if not x:
            continue
        y = [t for k in range(n + 1 - j) for t in bb[k]]
        work += len(x) * len(y)
        if work > 60_000_000:
            raise TooBig()
        for m1, c1 in x:
            for m2, c2 in y:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
    r = {m: _norm(c) for m, c in r.items() if c}
    if len(r) > MAX_TERMS:
        raise TooBig()
    return _reduce(r)


def _reduce(d):
    """Apply truncation and the g**n -> P rules until none applies."""
    ctx = CTX
    if ctx.trunc is not None:
        i, n = ctx.trunc
        s = i * W
        d = {m: c for m, c in d.items() if ((m >> s) & MASK) <= n}
    if not ctx.rules:
        return Poly(d)
    rm = ctx.rulemask
    bad = None
    for m in d:
        if m & rm:
            for i, e in _exps(m):
                ru = ctx.rules.get(i)
                if ru is not None and e >= ru[0]:
                    bad = True
                    break
            if bad:
                break
    if not bad:
        return Poly(d)
    # reduce: split off
    good = {}
    buckets = {}   # (i, k) -> poly dict to be multiplied by rule^k
    for m, c in d.items():
        hit = None
        if m & rm:
            for i, e in _exps(m):
                ru = ctx.rules.get(i)
                if ru is not None and e >= ru[0]:
                    hit = (i, e // ru[0], ru)
                    break
        if hit is None:
            good[m] = c
        else:
            i, k, ru = hit
            buckets.setdefault((i, k), {})[m - ((k * ru[0]) << (i * W))] = c
    res = Poly(good)
    for (i, k), b in buckets.items():
        res = res + _reduce(b) * _rulepow(i, k)
    return res


def _rulepow(i, k):
    return CTX.rules[i][1] ** k


ZERO = Poly({})
ONE = Poly({0: 1})
