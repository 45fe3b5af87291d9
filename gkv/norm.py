"""Algebraic normal forms of idealised-real terms, and an equality prover by sweeping.

Soundness convention: every identity used is valid wherever both sides are defined over the reals
(or over the part of the domain that the sign solver established).
"""
import time
from fractions import Fraction
from math import gcd, isqrt
import mpmath as mp
from expr import *
from numeric import ev_mp, NumErr

F0, F1 = Fraction(0), Fraction(1)


class TooBig(Exception):
    pass


class Rebase(Exception):
    pass


class Deadline:
    def __init__(self, s):
        self.t = time.time() + s

    def check(self):
        if time.time() > self.t:
            raise TooBig("time")


# ------------------------------------------------------------------ monomials / polynomials
def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mpow(a, k):
    return tuple((x, e * k) for x, e in a) if k else ()


def padd(a, b, k=F1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


class RF:
    """num / prod(den factors); den: dict factor-id -> exponent"""

    __slots__ = ("num", "den", "_key")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = (frozenset(self.num.items()), frozenset(self.den.items()))
        return self._key

    def is_zero(self):
        return not self.num

    def const(self):
        if self.den:
            return None
        if not self.num:
            return F0
        if len(self.num) == 1 and () in self.num:
            return self.num[()]
        return None


class Norm:
    MAXTERMS = 6000

    def __init__(self, pc=(), sign=None, points=None, deadline=None):
        self.atoms = []  # (kind, payload, expr)
        self.aidx = {}
        self.rel = {}  # atom -> RF for atom^2
        self.rel3 = {}
        self.factors = []
        self.fidx = {}
        self.base = {}  # monomial -> lcm of denominators
        self.memo = {}
        self.cls = {}  # node -> representative node
        self.opaque = {}  # node -> True : representative treated as an atom
        self.sign_fn = sign
        self.sign_memo = {}
        self.deadline = deadline or Deadline(1e9)
        self.points = points
        self.intatoms = set()
        self.PI = self.atom(("pi",), None)
        self.used_sign = []

    # -------------------------------------------------------------- atoms
    def atom(self, key, expr):
        i = self.aidx.get(key)
        if i is None:
            i = len(self.atoms)
            self.aidx[key] = i
            self.atoms.append((key, expr))
        return i

    def A(self, i, e=1):
        return RF({((i, e),): F1})

    def K(self, q):
        return RF({(): Fraction(q)} if q else {})

    # -------------------------------------------------------------- polynomial arithmetic with relations
    def pmul(self, a, b):
        if len(a) * len(b) > 400000:
            raise TooBig("product")
        if len(a) > len(b):
            a, b = b, a
        r = {}
        n = 0
        for m, c in a.items():
            n += 1
            if n & 63 == 0:
                self.deadline.check()
            for m2, c2 in b.items():
                mm = mmul(m, m2)
                v = r.get(mm)
                v = c * c2 if v is None else v + c * c2
                r[mm] = v
        r = {m: c for m, c in r.items() if c}
        if len(r) > self.MAXTERMS:
            raise TooBig("terms")
        return r

    def reduce(self, f):
        """apply s^2 = R relations to the numerator until none applies -> RF"""
        rel = self.rel
        if not rel and not self.rel3:
            return f
        while True:
            self.deadline.check()
            todo = None
            for m in f.num:
                for a, e in m:
                    if (e >= 2 and a in rel) or (e >= 3 and a in self.rel3):
                        # prefer the youngest atom (outermost radical)
                        if todo is None or a > todo:
                            todo = a
            if todo is None:
                return f
            a = todo
            if a in rel:
                R, deg = rel[a], 2
            else:
                R, deg = self.rel3[a], 3
            groups = {}
            for m, c in f.num.items():
                k = 0
                rest = m
                for x, e in m:
                    if x == a:
                        k, r_ = divmod(e, deg) if e > 0 else (0, e)
                        rest = tuple((y, z) for y, z in m if y != a)
                        if r_:
                            rest = mmul(rest, ((a, r_),))
                        break
                g = groups.setdefault(k, {})
                g[rest] = g.get(rest, F0) + c
            out = RF({}, {})
            for k in sorted(groups):
                p = {m: c for m, c in groups[k].items() if c}
                t = RF(p, {})
                if k:
                    t = self.mul_raw(t, self.pow_raw(R, k))
                out = self.add_raw(out, t)
            f = self.mul_den(out, f.den)

    def mul_den(self, f, den):
        if not den:
            return f
        d = dict(f.den)
        for k, e in den.items():
            d[k] = d.get(k, 0) + e
        return RF(f.num, d)

    def fpoly(self, i):
        return self.factors[i]

    def factor(self, p):
        """intern a multi-term polynomial as denominator factor; returns (id, scale)"""
        lead = max(p)
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        k = frozenset(q.items())
        i = self.fidx.get(k)
        if i is None:
            i = len(self.factors)
            self.fidx[k] = i
            self.factors.append(q)
        return i, c

    def ppow(self, p, k):
        r = {(): F1}
        for _ in range(k):
            r = self.pmul(r, p)
        return r

    def add_raw(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if a.den == b.den:
            return RF(padd(a.num, b.num), a.den)
        den = dict(a.den)
        for k, e in b.den.items():
            if e > den.get(k, 0):
                den[k] = e
        na, nb = a.num, b.num
        for k, e in den.items():
            da = e - a.den.get(k, 0)
            db = e - b.den.get(k, 0)
            if da:
                na = self.pmul(na, self.ppow(self.factors[k], da))
            if db:
                nb = self.pmul(nb, self.ppow(self.factors[k], db))
        return RF(padd(na, nb), den)

    def mul_raw(self, a, b):
        den = dict(a.den)
        for k, e in b.den.items():
            den[k] = den.get(k, 0) + e
        return RF(self.pmul(a.num, b.num), den)

    def pow_raw(self, a, k):
        r = RF({(): F1})
        for _ in range(k):
            r = self.mul_raw(r, a)
        return r

    def simp(self, f):
        f = self.reduce(f)
        if not f.num:
            return RF({})
        if f.den:
            f = self.cancel(f)
        if len(f.num) > self.MAXTERMS:
            raise TooBig("terms")
        return f

    def cancel(self, f):
        num, den = f.num, dict(f.den)
        ch = False
        for k in list(den):
            p = self.factors[k]
            while den.get(k, 0) > 0:
                q = self.divide(num, p)
                if q is None:
                    break
                num = q
                ch = True
                den[k] -= 1
                if not den[k]:
                    del den[k]
        return RF(num, den) if ch else f

    def divide(self, a, b):
        """exact division of polynomials (None when not exact / too costly)"""
        if len(b) > len(a) or len(b) > 40 or len(a) > 400:
            return None
        if len(b) == len(a):
            # proportional?
            lb, la = max(b), max(a)
            c = a[la] / b[lb]
            mm = mmul(la, mpow(lb, -1))
            q = {mmul(m, mm): v * c for m, v in b.items()}
            if q == a:
                return {mm: c}
            return None
        lb = max(b, key=self.order)
        cb = b[lb]
        ib = mpow(lb, -1)
        r = dict(a)
        q = {}
        steps = 0
        while r:
            steps += 1
            if steps > 200:
                return None
            la = max(r, key=self.order)
            mm = mmul(la, ib)
            if any(e < 0 and self.algebraic(x) for x, e in mm):
                return None
            c = r[la] / cb
            q[mm] = q.get(mm, F0) + c
            for m, v in b.items():
                t = mmul(m, mm)
                nv = r.get(t, F0) - v * c
                if nv:
                    r[t] = nv
                else:
                    r.pop(t, None)
            if r and self.order(max(r, key=self.order)) >= self.order(la):
                return None
        return q

    def order(self, m):
        # graded by exponent vector, lexicographic on (atom, exp): a total multiplicative order
        return tuple(sorted(((-a, e) for a, e in m), key=lambda t: t[0])) and _LexKey(m)

    def algebraic(self, a):
        return a in self.rel or a in self.rel3

    def add(self, a, b):
        return self.simp(self.add_raw(a, b))

    def neg(self, a):
        return RF(pscale(a.num, Fraction(-1)), a.den)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        return self.simp(self.mul_raw(a, b))

    def scale(self, a, k):
        return RF(pscale(a.num, Fraction(k)), a.den if k else {})

    def inv(self, a):
        if not a.num:
            raise TooBig("division by zero")
        # numerator becomes denominator
        num = {(): F1}
        for k, e in a.den.items():
            num = self.pmul(num, self.ppow(self.factors[k], e))
        if len(a.num) == 1:
            (m, c), = a.num.items()
            free = tuple((x, -e) for x, e in m if not self.algebraic(x))
            r = RF(self.pmul(num, {free: 1 / c}))
            for x, e in m:
                if self.algebraic(x):
                    if x in self.rel:
                        # 1/s = s/R
                        k = self.inv(self.rel[x])
                        one = self.mul_raw(RF({((x, 1),): F1}), k)
                        r = self.mul_raw(r, self.pow_raw(one, e)) if e > 0 else r
                    else:
                        k = self.inv(self.rel3[x])
                        one = self.mul_raw(RF({((x, 2),): F1}), k)
                        r = self.mul_raw(r, self.pow_raw(one, e)) if e > 0 else r
            return self.simp(r)
        # a common radical: 1/(s q) = s / (R q)
        for x, e in next(iter(a.num)):
            if e == 1 and x in self.rel and all((x, 1) in m for m in a.num):
                q = RF({tuple(y for y in m if y[0] != x): c for m, c in a.num.items()}, a.den)
                return self.mul(self.mul(self.A(x), self.inv(self.rel[x])), self.inv(q))
        # pull out the common monomial part (free atoms)
        com = None
        for m in a.num:
            d = {x: e for x, e in m if not self.algebraic(x)}
            if com is None:
                com = d
            else:
                ks = set(com) | set(d)
                com = {x: min(com.get(x, 0), d.get(x, 0)) for x in ks}
        com = tuple(sorted((x, e) for x, e in com.items() if e))
        p = a.num
        if com:
            ic = mpow(com, -1)
            p = {mmul(m, ic): c for m, c in p.items()}
            num = self.pmul(num, {ic: F1})
        i, c = self.factor(p)
        return self.simp(RF(pscale(num, 1 / c), {i: 1}))

    def div(self, a, b):
        if len(b.num) > 1 and a.num and a.key == b.key:
            return self.K(1)
        return self.mul(a, self.inv(b))

    def pw(self, a, k):
        if k < 0:
            return self.inv(self.pw(a, -k))
        r = self.K(1)
        b = a
        while k:
            if k & 1:
                r = self.mul(r, b)
            k >>= 1
            if k:
                b = self.mul(b, b)
        return r

    # -------------------------------------------------------------- back to expressions
    def to_expr(self, f):
        def mono(m, c):
            e = qconst(c) if c != 1 else None
            for a, k in sorted(m, key=lambda t: t[1] < 0):
                b = self.atom_expr(a)
                if k < 0:
                    e = mk("div", e if e is not None else qconst(F1), mk("powi", b, -k) if k != -1 else b)
                else:
                    b = mk("powi", b, k) if k != 1 else b
                    e = mk("mul", e, b) if e is not None else b
            return e if e is not None else qconst(F1)

        def poly(p):
            e = None
            for m, c in sorted(p.items()):
                t = mono(m, c)
                e = t if e is None else mk("add", e, t)
            return e if e is not None else ZERO

        e = poly(f.num)
        for k, n in f.den.items():
            d = poly(self.factors[k])
            for _ in range(n):
                e = mk("div", e, d)
        return e

    def atom_expr(self, a):
        key, ex = self.atoms[a]
        if ex is None:
            if key[0] == "pi":
                return PIE
            raise TooBig("no expression for atom")
        return ex

    # -------------------------------------------------------------- signs
    def sign(self, f):
        """'+' (>=0), '-' (<=0), '0', or None (unknown) of an RF on the path"""
        c = f.const()
        if c is not None:
            return "+" if c >= 0 else "-"
        if f.key in self.sign_memo:
            return self.sign_memo[f.key]
        r = None
        if not f.den and len(f.num) == 1:
            (m, c), = f.num.items()
            s = 1 if c > 0 else -1
            okk = True
            for a, e in m:
                if e % 2 == 0:
                    continue
                sa = self.atom_sign(a)
                if sa is None:
                    okk = False
                    break
                s *= 1 if sa == "+" else -1
            if okk:
                r = "+" if s > 0 else "-"
        if r is None and self.sign_fn is not None:
            try:
                r = self.sign_fn(self.to_expr(f))
            except TooBig:
                r = None
        self.sign_memo[f.key] = r
        return r

    def atom_sign(self, a):
        key = self.atoms[a][0]
        if key[0] in ("pi", "exp", "sqrt", "cosh"):
            return "+"
        if ("a", a) in self.sign_memo:
            return self.sign_memo[("a", a)]
        r = None
        if self.sign_fn is not None:
            try:
                r = self.sign_fn(self.atom_expr(a))
            except TooBig:
                r = None
        self.sign_memo[("a", a)] = r
        return r

    # -------------------------------------------------------------- functions
    def sqrt(self, f):
        c = f.const()
        if c is not None and c >= 0:
            n, d = c.numerator, c.denominator
            if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                return self.K(Fraction(isqrt(n), isqrt(d)))
        if not f.num:
            return f
        # pull out squares: monomial content and den factors
        out = self.K(1)
        den = {}
        for k, e in f.den.items():
            h, r = divmod(e, 2)
            if h:
                p = RF(self.factors[k])
                s = self.sign(p)
                if s is None:
                    r = e
                else:
                    out = self.div(out, self.pw(self.scale(p, 1 if s == "+" else -1), h))
            if r:
                den[k] = r
        num = f.num
        # common monomial with even part
        com = None
        for m in num:
            d = dict(m)
            if com is None:
                com = d
            else:
                com = {x: (min(com[x], d[x]) if com[x] > 0 and d[x] > 0 else max(com[x], d[x]) if com[x] < 0 and d[x] < 0 else 0)
                       for x in com if x in d}
        sq = []
        for x, e in sorted((com or {}).items()):
            h = (e - (e % 2)) // 2 if e > 0 else -((-e + (-e % 2)) // 2)
            if not h:
                continue
            if h % 2 and self.atom_sign(x) is None:
                continue
            if h < 0 and self.algebraic(x):
                continue
            sq.append((x, h))
        if sq:
            m2 = tuple((x, 2 * h) for x, h in sq)
            im = mpow(m2, -1)
            num = {mmul(m, im): c for m, c in num.items()}
            for x, h in sq:
                g = self.pw(self.A(x), abs(h)) if h > 0 else self.A(x, h)
                if h % 2 and self.atom_sign(x) == "-":
                    g = self.neg(g)
                out = self.mul(out, g)
        # rational content
        cs = [c for c in num.values()]
        g = None
        for c in cs:
            c = abs(c)
            g = c if g is None else Fraction(gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
        if g and g != 1:
            n, d = g.numerator * g.denominator, g.denominator
            s = sqpart(n)
            if Fraction(s, d) != 1:
                k2 = Fraction(s, d)
                out = self.scale(out, k2)
                num = pscale(num, 1 / (k2 * k2))
        rest = RF(num, den)
        c = rest.const()
        if c is not None and c >= 0:
            n, d = c.numerator, c.denominator
            if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                return self.scale(out, Fraction(isqrt(n), isqrt(d)))
        # perfect square polynomial?
        if len(num) >= 3 and not den:
            r = self.polysqrt(num)
            if r is not None:
                s = self.sign(RF(r))
                if s is not None:
                    return self.mul(out, self.scale(RF(r), 1 if s == "+" else -1))
        if den:
            # sqrt(n/d) = sqrt(n*d)/|d|
            p = {(): F1}
            for k, e in den.items():
                p = self.pmul(p, self.factors[k])
            dd = RF(p)
            s = self.sign(dd)
            if s is not None:
                nn = self.simp(RF(self.pmul(num, p)))
                if not nn.den:
                    r = self.sqrt_atom(nn)
                    return self.mul(out, self.div(r, self.scale(dd, 1 if s == "+" else -1)))
        return self.mul(out, self.sqrt_atom(rest))

    def sqrt_atom(self, rest):
        k = ("sqrt", rest.key)
        new = k not in self.aidx
        a = self.atom(k, mk("sqrt", self.to_expr(rest)) if new else None)
        if new:
            self.rel[a] = rest
        return self.A(a)

    def polysqrt(self, p):
        """exact polynomial square root of p (no algebraic care) or None"""
        if any(e % 2 and False for m in p for _, e in m):
            return None
        lead = max(p, key=self.order)
        c = p[lead]
        if c < 0:
            return None
        n, d = c.numerator, c.denominator
        if isqrt(n) ** 2 != n or isqrt(d) ** 2 != d or any(e % 2 for _, e in lead):
            return None
        r = {tuple((a, e // 2) for a, e in lead): Fraction(isqrt(n), isqrt(d))}
        lm, lc = next(iter(r.items()))
        inv = mpow(lm, -1)
        for _ in range(30):
            d_ = padd(p, self.pmul(r, r), Fraction(-1))
            if not d_:
                return r
            m = max(d_, key=self.order)
            t = mmul(m, inv)
            if any(e < 0 and self.algebraic(a) for a, e in t) or t in r:
                return None
            r[t] = d_[m] / (2 * lc)
        return None

    def cbrt(self, f):
        c = f.const()
        if c is not None:
            n, d = round(abs(c.numerator) ** (1 / 3)), round(c.denominator ** (1 / 3))
            if n ** 3 == abs(c.numerator) and d ** 3 == c.denominator:
                return self.K(Fraction(n if c > 0 else -n, d))
        k = ("cbrt", f.key)
        new = k not in self.aidx
        a = self.atom(k, mk("cbrt", self.to_expr(f)) if new else None)
        if new:
            self.rel3[a] = f
        return self.A(a)

    def abs(self, f):
        if not f.num:
            return f
        s = self.sign(f)
        if s == "+":
            return f
        if s == "-":
            return self.neg(f)
        # canonical up to sign
        lead = f.num[max(f.num)]
        if lead < 0:
            f = self.neg(f)
        k = ("abs", f.key)
        new = k not in self.aidx
        a = self.atom(k, mk("abs", self.to_expr(f)) if new else None)
        if new:
            self.rel[a] = self.mul(f, f)
            self.sign_memo[("a", a)] = "+"
        return self.A(a)

    # trig -------------------------------------------------------------
    def split(self, f):
        """linear terms of an argument: list of (coef Fraction, monomial) or None"""
        if f.den:
            return None
        return list(f.num.items())

    def basemono(self, m, c):
        """register denominators of coefficient; returns integer multiple of base"""
        d = self.base.get(m, 1)
        if (c * d).denominator != 1:
            self.base[m] = d * (c * d).denominator
            raise Rebase()
        return int(c * d), d

    def sincos(self, f):
        """-> (sin f, cos f)"""
        terms = self.split(f)
        if terms is None or len(terms) > 6:
            return self.sc_atom(f)
        s, c = self.K(0), self.K(1)
        rest = []
        for m, q in terms:
            if m == ((self.PI, 1),):
                s1, c1 = self.sc_pi(q)
            else:
                # 2*pi*integer
                ms = dict(m)
                ints = [a for a in ms if a in self.intatoms]
                if ints and set(ms) == {self.PI, ints[0]} and ms[self.PI] == 1 and ms[ints[0]] == 1:
                    if (q / 2).denominator == 1:
                        continue
                k, d = self.basemono(m, q)
                at = self.atoms[m[0][0]][0] if len(m) == 1 and m[0][1] == 1 else None
                if at and at[0] == "atan2" and d == 1:
                    s1, c1 = self.sc_atan2(m[0][0])
                else:
                    s1, c1 = self.sc_base(m, d)
                s1, c1 = self.multiple(s1, c1, k)
            s, c = self.add(self.mul(s, c1), self.mul(c, s1)), self.sub(self.mul(c, c1), self.mul(s, s1))
        return s, c

    def multiple(self, s, c, k):
        if k < 0:
            a, b = self.multiple(s, c, -k)
            return self.neg(a), b
        if k > 40:
            raise TooBig("multiple angle")
        S, C = self.K(0), self.K(1)
        for _ in range(k):
            S, C = self.add(self.mul(S, c), self.mul(C, s)), self.sub(self.mul(C, c), self.mul(S, s))
        return S, C

    def sc_pi(self, q):
        q = q % 2
        tab = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
        if q in tab:
            a, b = tab[q]
            return self.K(a), self.K(b)
        if q.denominator == 4:
            h = self.sqrt(self.K(Fraction(1, 2)))
            sg = {Fraction(1, 4): (1, 1), Fraction(3, 4): (1, -1), Fraction(5, 4): (-1, -1), Fraction(7, 4): (-1, 1)}[q]
            return self.scale(h, sg[0]), self.scale(h, sg[1])
        k, d = self.basemono(((self.PI, 1),), q)
        s, c = self.sc_base(((self.PI, 1),), d)
        return self.multiple(s, c, k)

    def sc_base(self, m, d):
        f = RF({m: Fraction(1, d)})
        return self.sc_atom(f)

    def sc_atom(self, f):
        kc = ("cos", f.key)
        ks = ("sin", f.key)
        new = ks not in self.aidx
        e = self.to_expr(f) if new else None
        c = self.atom(kc, mk("cos", e) if new else None)
        s = self.atom(ks, mk("sin", e) if new else None)
        if new:
            self.rel[s] = RF({(): F1, ((c, 2),): Fraction(-1)})
        return self.A(s), self.A(c)

    def sc_atan2(self, a):
        y, x = self.atoms[a][0][3]
        h = self.sqrt(self.add(self.mul(y, y), self.mul(x, x)))
        return self.div(y, h), self.div(x, h)

    def atan2(self, y, x):
        if not y.num:
            if self.sign(x) == "+":
                return self.K(0)
        # scale to canonical representation: divide by content when its sign is known
        if x.const() is not None and x.const() == 0 and self.sign(y) is not None:
            return self.scale(self.A(self.PI), Fraction(1, 2) if self.sign(y) == "+" else Fraction(-1, 2))
        yc = y.num and max(y.num)
        if y.num and y.num[yc] < 0 and self.sign(x) == "+":
            return self.neg(self.atan2(self.neg(y), x))
        # atan2(h s, h c) of a known angle
        k = ("atan2", y.key, x.key, (y, x))
        kk = ("atan2", y.key, x.key)
        i = self.aidx.get(kk)
        if i is None:
            i = len(self.atoms)
            self.aidx[kk] = i
            self.atoms.append((k, mk("atan2", self.to_expr(y), self.to_expr(x))))
        return self.A(i)

    # exp/log ------------------------------------------------------------
    def exp(self, f):
        terms = self.split(f)
        if terms is None:
            return self.exp_atom(f)
        out = self.K(1)
        for m, q in terms:
            at = self.atoms[m[0][0]][0] if len(m) == 1 and m[0][1] == 1 else None
            if at and at[0] == "ln":
                u = at[2] if q.denominator == 1 and q % 2 == 0 else self.abs(at[2])  # the atom is ln |.|
                if q.denominator == 1:
                    out = self.mul(out, self.pw(u, int(q)))
                    continue
                if q.denominator == 2:
                    out = self.mul(out, self.pw(self.sqrt(u), int(q * 2)))
                    continue
            k, d = self.basemono(m, q)
            b = self.exp_atom(RF({m: Fraction(1, d)}))
            out = self.mul(out, self.pw(b, k))
        return out

    def exp_atom(self, f):
        k = ("exp", f.key)
        new = k not in self.aidx
        a = self.atom(k, mk("exp", self.to_expr(f)) if new else None)
        if new:
            self.atoms[a] = (("exp", f.key, f), self.atoms[a][1])
        return self.A(a)

    def ln(self, f):
        if not f.num:
            raise TooBig("ln 0")
        out = self.K(0)
        for k, e in f.den.items():
            out = self.sub(out, self.scale(self.ln_atom(RF(self.factors[k])), e))
        num = f.num
        com = None
        for m in num:
            d = dict(m)
            if com is None:
                com = d
            else:
                com = {x: (min(com[x], d[x]) if com[x] > 0 and d[x] > 0 else max(com[x], d[x]) if com[x] < 0 and d[x] < 0 else 0)
                       for x in com if x in d}
        com = tuple(sorted((x, e) for x, e in (com or {}).items() if e))
        if com:
            im = mpow(com, -1)
            num = {mmul(m, im): c for m, c in num.items()}
            for x, e in com:
                at = self.atoms[x][0]
                if at[0] == "exp":
                    out = self.add(out, self.scale(at[2], e))
                elif at[0] == "sqrt":
                    out = self.add(out, self.scale(self.ln(self.rel[x]), Fraction(e, 2)))
                else:
                    out = self.add(out, self.scale(self.ln_atom(self.A(x)), e))
        lead = num[max(num)]
        rest = RF(pscale(num, 1 / abs(lead)))
        if abs(lead) != 1:
            out = self.add(out, self.ln_atom(self.K(abs(lead))))
        c = rest.const()
        if c is None or abs(c) != 1:
            out = self.add(out, self.ln_atom(rest))
        return out

    def ln_atom(self, f):
        """ln |f|"""
        if f.num and f.num[max(f.num)] < 0:
            f = self.neg(f)
        c = f.const()
        if c == 1:
            return self.K(0)
        k = ("ln", f.key)
        new = k not in self.aidx
        a = self.atom(k, mk("ln", mk("abs", self.to_expr(f))) if new else None)
        if new:
            self.atoms[a] = (("ln", f.key, f), self.atoms[a][1])
        return self.A(a)

    def int_atom(self, op, f):
        c = f.const()
        if c is not None:
            import math

            if op == "floor":
                return self.K(math.floor(c))
            if op == "ceil":
                return self.K(math.ceil(c))
            if op == "trunc":
                return self.K(int(c))
        if op == "trunc" and self.sign_fn is not None:
            k = self.K(Fraction(999999, 1000000))
            if self.sign(self.sub(k, f)) == "+" and self.sign(self.add(k, f)) == "+":
                return self.K(0)
            sg = self.sign(f)
            op = "floor" if sg == "+" else "ceil" if sg == "-" else op
        k = (op, f.key)
        new = k not in self.aidx
        a = self.atom(k, mk(op, self.to_expr(f)) if new else None)
        self.intatoms.add(a)
        return self.A(a)

    # -------------------------------------------------------------- main translation
    def rep(self, n):
        r = n
        while self.cls.get(r, r) is not r:
            r = self.cls[r]
        return r

    def nf(self, e):
        while True:
            try:
                return self._nf(e)
            except Rebase:
                self.memo = {}
                self.reset_trig()

    def reset_trig(self):
        pass

    def _nf(self, e):
        memo = self.memo
        stack = [e]
        while stack:
            n = stack[-1]
            r = self.rep(n)
            if r in memo:
                memo[n] = memo[r]
                stack.pop()
                continue
            if n is not r:
                stack.append(r)
                continue
            if n in self.opaque:
                a = self.atom(("cut", n.id), n)
                memo[n] = self.A(a)
                stack.pop()
                continue
            pend = [a for a in n.args if isinstance(a, E) and a not in memo]
            if pend:
                stack.extend(pend)
                continue
            self.deadline.check()
            memo[n] = self.one(n, [memo[a] if isinstance(a, E) else a for a in n.args])
            stack.pop()
        return memo[e]

    def one(self, n, a):
        op = n.op
        if op == "f":
            x = fval(n)
            if x != x or abs(x) == float("inf"):
                return self.A(self.atom(("special", repr(x)), n))
            q, k = ideal(x)
            r = self.K(q)
            return self.mul(r, self.A(self.PI, k)) if k and q else r
        if op == "q":
            return self.K(n.args[0])
        if op == "pi":
            return self.A(self.PI)
        if op in ("var",):
            return self.A(self.atom(("var", n.args[0]), n))
        if op == "ivar":
            i = self.atom(("var", n.args[0]), n)
            self.intatoms.add(i)
            return self.A(i)
        if op == "add" or op == "iadd":
            return self.add(self.c(a[0]), self.c(a[1]))
        if op == "sub" or op == "isub":
            return self.sub(self.c(a[0]), self.c(a[1]))
        if op == "mul" or op == "imul":
            return self.mul(self.c(a[0]), self.c(a[1]))
        if op == "div":
            return self.div(a[0], a[1])
        if op == "neg":
            return self.neg(a[0])
        if op == "fma":
            return self.add(self.mul(a[0], a[1]), a[2])
        if op == "powi":
            return self.pw(a[0], a[1])
        if op == "sin":
            return self.sincos(a[0])[0]
        if op == "cos":
            return self.sincos(a[0])[1]
        if op == "tan":
            s, c = self.sincos(a[0])
            return self.div(s, c)
        if op == "sqrt":
            return self.sqrt(a[0])
        if op == "hypot":
            return self.sqrt(self.add(self.mul(a[0], a[0]), self.mul(a[1], a[1])))
        if op == "cbrt":
            return self.cbrt(a[0])
        if op == "abs":
            return self.abs(a[0])
        if op == "exp":
            return self.exp(a[0])
        if op == "expm1":
            return self.sub(self.exp(a[0]), self.K(1))
        if op == "ln":
            return self.ln(a[0])
        if op == "log1p":
            return self.ln(self.add(a[0], self.K(1)))
        if op in ("sinh", "cosh", "tanh"):
            p = self.exp(a[0])
            m = self.inv(p)
            s = self.scale(self.sub(p, m), Fraction(1, 2))
            if op == "sinh":
                return s
            c = self.scale(self.add(p, m), Fraction(1, 2))
            if op == "cosh":
                return c
            return self.div(s, c)
        if op == "asinh":
            x = a[0]
            # odd function: canonical sign
            if x.num and x.num[max(x.num)] < 0:
                return self.neg(self.ln(self.add(self.neg(x), self.sqrt(self.add(self.mul(x, x), self.K(1))))))
            return self.ln(self.add(x, self.sqrt(self.add(self.mul(x, x), self.K(1)))))
        if op == "acosh":
            x = a[0]
            return self.ln(self.add(x, self.sqrt(self.sub(self.mul(x, x), self.K(1)))))
        if op == "atanh":
            x = a[0]
            return self.scale(self.sub(self.ln(self.add(self.K(1), x)), self.ln(self.sub(self.K(1), x))), Fraction(1, 2))
        if op == "powf":
            c = a[1].const()
            if c is not None and c.denominator == 1 and abs(c) <= 20:
                return self.pw(a[0], int(c))
            if c is not None and c == Fraction(1, 2):
                return self.sqrt(a[0])
            return self.exp(self.mul(a[1], self.ln(a[0])))
        if op == "atan2":
            return self.atan2(a[0], a[1])
        if op == "atan":
            return self.atan2(a[0], self.K(1))
        if op == "asin":
            return self.atan2(a[0], self.sqrt(self.sub(self.K(1), self.mul(a[0], a[0]))))
        if op == "acos":
            return self.atan2(self.sqrt(self.sub(self.K(1), self.mul(a[0], a[0]))), a[0])
        if op in ("rte", "round", "floor", "ceil", "trunc"):
            return self.int_atom(op, a[0])
        if op == "toint":
            return self.int_atom("trunc", a[0])
        if op == "ofint":
            return self.c(a[0])
        if op == "fmod":
            q = self.int_atom("trunc", self.div(a[0], a[1]))
            return self.sub(a[0], self.mul(a[1], q))
        if op == "uf":
            k = ("uf",) + tuple(x.key if isinstance(x, RF) else x for x in a)
            return self.A(self.atom(k, n))
        # anything else: opaque function of its arguments
        k = (op,) + tuple(x.key if isinstance(x, RF) else x for x in a)
        return self.A(self.atom(k, n))

    def c(self, x):
        return x if isinstance(x, RF) else self.K(x)


class _LexKey:
    """multiplicative lexicographic order on monomials"""

    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def _cmp(self, o):
        a, b = self.m, o.m
        i = j = 0
        while i < len(a) or j < len(b):
            if i < len(a) and (j >= len(b) or a[i][0] < b[j][0]):
                return 1 if a[i][1] > 0 else -1
            if j < len(b) and (i >= len(a) or b[j][0] < a[i][0]):
                return -1 if b[j][1] > 0 else 1
            if a[i][1] != b[j][1]:
                return 1 if a[i][1] > b[j][1] else -1
            i += 1
            j += 1
        return 0

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __eq__(self, o):
        return self.m == o.m


Norm.order = lambda self, m: _LexKey(m)


def sqpart(n):
    """largest s with s^2 | n (small trial division)"""
    if n == 0:
        return 1
    s = 1
    p = 2
    while p * p <= n and p < 2000:
        while n % (p * p) == 0:
            n //= p * p
            s *= p
        if n % p == 0:
            n //= p
        p += 1
    r = isqrt(n)
    if r * r == n:
        s *= r
    return s


def qconst(c):
    c = Fraction(c)
    return mk("q", c)


PIE = mk("pi")


# ------------------------------------------------------------------ equality by sweeping
def fingerprint(vals):
    out = []
    for v in vals:
        if isinstance(v, bool):
            return None
        try:
            if not mp.isfinite(v):
                return None
        except Exception:
            return None
        if abs(v) < mp.mpf(10) ** -28:
            out.append("0")
        else:
            out.append(mp.nstr(v, 22))
    return tuple(out)


def close(u, v, scale=0):
    try:
        if not (mp.isfinite(u) and mp.isfinite(v)):
            return None
    except Exception:
        return None
    return abs(u - v) <= mp.mpf(10) ** -25 * (1 + abs(u) + abs(v) + scale)


class Sweeper:
    """prove a == b on a path, given mp sample points of the path"""

    def __init__(self, pc, points, sign=None, budget=20.0, log=None, nonzero=None):
        self.nonzero = nonzero
        self.pc = pc
        self.points = points
        self.sign = sign
        self.budget = budget
        self.log = log
        self.norm = None
        self.norm2 = None
        self.reset()

    def reset(self):
        self.dl = Deadline(self.budget)
        self.o = Norm(self.pc, self.sign, deadline=self.dl)  # cuts opaque
        self.t = Norm(self.pc, self.sign, deadline=self.dl)  # transparent
        self.vals = {}
        self.classes = {}  # fingerprint -> [rep nodes]
        self.done = set()
        for c, b in self.pc:
            if b and c.op == "feq":
                x, y = c.args
                self.pc_eq(x, y)

    def pc_eq(self, x, y):
        # orient: replace the more complex by the simpler
        def size(n):
            return len(topo([n]))

        if is_f(x) or (not is_f(y) and size(x) < size(y)):
            x, y = y, x
        if x is y:
            return
        if self.solve_eq(x, y):
            return
        for nm in (self.o, self.t):
            rx, ry = nm.rep(x), nm.rep(y)
            if rx is not ry and rx not in topo([ry]):
                nm.cls[rx] = ry

    def solve_eq(self, x, y):
        """x == y: after dropping non-zero factors, solve for a variable occurring linearly"""
        nm = Norm(self.pc, self.sign, deadline=Deadline(1.0))
        nm.cls = dict(self.t.cls)
        try:
            f = nm.nf(mk("sub", x, y))
        except (TooBig, Rebase, ZeroDivisionError):
            return False
        if not f.num:
            return False
        com = None
        for m in f.num:
            d = dict(m)
            com = d if com is None else {k: min(com[k], d[k]) for k in com if k in d}
        drop = []
        for a, e in (com or {}).items():
            if e > 0 and not (self.nonzero and self.nonzero(nm.atom_expr(a))):
                return False
            drop.append((a, -e))
        num = {mmul(m, tuple(sorted(drop))): c for m, c in f.num.items()}
        for m, c in num.items():
            if len(m) == 1 and m[0][1] == 1 and nm.atoms[m[0][0]][0][0] == "var":
                a = m[0][0]
                if any(k == a for m2 in num if m2 != m for k, _ in m2):
                    continue
                v = nm.atom_expr(a)
                try:
                    e = nm.to_expr(RF(pscale({k: q for k, q in num.items() if k != m}, -1 / c)))
                except TooBig:
                    continue
                if v in topo([e]) or v in self.t.cls:
                    continue
                for t in (self.o, self.t):
                    t.cls[v] = e
                return True
        return False

    def evaluate(self, nodes):
        need = [n for n in topo(nodes) if n not in self.vals]
        if not need:
            return
        tabs = []
        for env in self.points:
            tabs.append(ev_mp(nodes, env))
        for n in topo(nodes):
            if n not in self.vals:
                self.vals[n] = [t[n] for t in tabs]

    def merge(self, n, r):
        for nm in (self.o, self.t):
            a, b = nm.rep(n), nm.rep(r)
            if a is not b:
                nm.cls[a] = b
        self.o.memo = {}
        # representative becomes a cut
        b = self.o.rep(r)
        if b.op not in ("var", "f", "q") and len(b.args) and not const_node(b):
            self.o.opaque[b] = True

    def equal_local(self, a, b, secs):
        """try to prove a == b symbolically"""
        old = self.dl
        for nm in (self.o, self.t):
            if nm is self.t and self.same(nm, a, b, secs * 3):
                return True
            if nm is self.o and self.same(nm, a, b, secs):
                return True
        return False

    def same(self, nm, a, b, secs):
        if nm.rep(a) is nm.rep(b):
            return True
        nm.deadline = Deadline(min(secs, max(0.05, self.dl.t - time.time())))
        try:
            # congruence
            ra, rb = nm.rep(a), nm.rep(b)
            if ra.op == rb.op and len(ra.args) == len(rb.args) and all(
                (x is y) if not isinstance(x, E) else (isinstance(y, E) and nm.rep(x) is nm.rep(y)) for x, y in zip(ra.args, rb.args)
            ) and ra.op not in ("var", "ivar", "f", "q"):
                return True
            fa = nm.nf(a)
            fb = nm.nf(b)
            for _ in range(20):
                try:
                    d = nm.sub(fa, fb)
                    if d.is_zero():
                        return True
                    return self.angle_zero(nm, d) or self.log_zero(nm, d)
                except Rebase:
                    nm.memo = {}
                    fa, fb = nm.nf(a), nm.nf(b)
            return False
        except TooBig:
            nm.memo = {}
            return False
        except (ZeroDivisionError, RecursionError):
            return False

    def angle_zero(self, nm, d):
        """d contains atan2 atoms with integer coefficients: sin d = 0, cos d = 1 (the multiple of
        2 pi is fixed by the sample values)"""
        if d.den:
            return False
        ks = [nm.atoms[m[0][0]][0][0] for m in d.num if len(m) == 1 and m[0][1] == 1]
        if "atan2" not in ks:
            return False
        s, c = nm.sincos(d)
        if not s.is_zero():
            return False
        return nm.sub(c, nm.K(1)).is_zero()

    def log_zero(self, nm, d):
        """sum of k_i ln f_i with equal coefficient monomials: product of f_i^k_i = 1"""
        if d.den:
            # multiply out: only the numerator matters
            d = RF(d.num)
        groups = {}
        for m, c in d.num.items():
            lns = [(a, e) for a, e in m if nm.atoms[a][0][0] == "ln"]
            if len(lns) != 1 or lns[0][1] != 1:
                return False
            rest = tuple(x for x in m if x != lns[0])
            groups.setdefault(rest, []).append((c, nm.atoms[lns[0][0]][0][2]))
        if not groups:
            return False
        for g in groups.values():
            l = 1
            for c, _ in g:
                l = l * c.denominator // gcd(l, c.denominator)
            p = nm.K(1)
            for c, f in g:
                k = int(c * l)
                if abs(k) > 12:
                    return False
                p = nm.mul(p, nm.pw(f, k))
            # |p| = 1
            z = nm.sub(p, nm.K(1))
            if not z.is_zero():
                z = nm.add(p, nm.K(1))
                if not z.is_zero():
                    z = nm.sub(nm.mul(p, p), nm.K(1))
                    if not z.is_zero():
                        return False
        return True

    def sweep(self, roots, secs=0.4):
        self.evaluate(roots)
        for n in topo(roots):
            if n in self.done or n.op in ("f", "q", "var", "ivar") or n.op in BOOL:
                self.done.add(n)
                continue
            self.done.add(n)
            if time.time() > self.dl.t:
                return
            fp = fingerprint(self.vals[n])
            if fp is None:
                continue
            if const_node(n):
                continue
            reps = self.classes.setdefault(fp, [])
            for r in reps:
                if r is n or self.equal_local(r, n, secs):
                    if r is not n:
                        self.merge(n, r)
                    break
            else:
                reps.append(n)

    def prove_zero_numeric(self, a, b):
        """(status, point) numeric status: 'zero' / ('nonzero', point, diff)"""
        self.evaluate([a, b])
        for i, env in enumerate(self.points):
            u, v = self.vals[a][i], self.vals[b][i]
            c = close(u, v)
            if c is False:
                return ("nonzero", env, abs(u - v))
        return ("zero", None, None)

    def prove_eq(self, a, b):
        if a is b:
            return True
        if self.equal_local(a, b, 2.0):
            return True
        self.sweep([a, b])
        return self.equal_local(a, b, 10.0)


BOOL = {"lt", "le", "feq", "not", "and", "or", "ilt", "ile", "ieq", "bvar", "true", "false", "isnan", "isfinite", "isinf", "signbit", "ubool"}
_cn = {}


def const_node(n):
    r = _cn.get(n.id)
    if r is None:
        r = not any(x.op in ("var", "ivar", "bvar", "uf") for x in topo([n]))
        _cn[n.id] = r
    return r
