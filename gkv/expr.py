"""Hash-consed expressions over f64-valued program terms.

Nodes keep the *program's* operations (add, mul, sin ...), no folding: the interpretation
(exact reals, rounded reals, numpy doubles, mpmath) is chosen by the consumer.
"""
import math, struct
from fractions import Fraction
from functools import lru_cache

_tab = {}


class E:
    __slots__ = ("op", "args", "id", "h", "meta")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self.id = len(_tab)
        self.meta = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, *args):
    k = (op,) + tuple(a.id if isinstance(a, E) else ("#", a) for a in args)
    n = _tab.get(k)
    if n is None:
        n = E(op, args)
        _tab[k] = n
    return n


def fbits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def fconst(x):
    x = float(x)
    return mk("f", fbits(x))


def fval(n):
    """float value of an 'f' node"""
    return struct.unpack("<d", struct.pack("<Q", n.args[0]))[0]


def var(name):
    return mk("var", name)


def is_f(n):
    return isinstance(n, E) and n.op == "f"


ZERO = fconst(0.0)
ONE = fconst(1.0)


def show(e, d=0):
    if not isinstance(e, E):
        return repr(e)
    if e.op == "f":
        return repr(fval(e))
    if e.op == "q":
        return str(e.args[0])
    if e.op == "var":
        return e.args[0]
    if d > 6:
        return "…"
    sym = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "feq": "=="}
    if e.op in sym:
        return "(" + show(e.args[0], d + 1) + sym[e.op] + show(e.args[1], d + 1) + ")"
    return e.op + "(" + ", ".join(show(a, d + 1) if isinstance(a, E) else str(a) for a in e.args) + ")"


# ---------------------------------------------------------------- booleans
TRUE = mk("true")
FALSE = mk("false")


def lnot(c):
    if c is True or c is False:
        return not c
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def land(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return mk("and", a, b)


def lor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return mk("or", a, b)


# ---------------------------------------------------------------- idealisation of constants
def _simplest(lo, hi):
    """simplest fraction in [lo, hi] (0 < lo <= hi), Stern-Brocot"""
    fl = math.floor(lo)
    if fl >= lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = _simplest(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


PI_FRAC = Fraction(
    "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651"
)


@lru_cache(maxsize=None)
def ideal(x):
    """f64 -> (q, k): the constant is understood as q * pi**k.

    Small rational multiples of pi, 1/pi (degree factors), otherwise the simplest rational that
    rounds to x.
    """
    if x == 0:
        return (Fraction(0), 0)
    s = 1 if x > 0 else -1
    v = Fraction(abs(x))
    ulp = Fraction(math.ulp(abs(x)))
    lo, hi = v - ulp / 2, v + ulp / 2
    r = _simplest(lo, hi)
    if r.denominator <= 10**7 or r.numerator <= 10**6:
        return (s * r, 0)
    # allow one more rounding (PI/180 is computed)
    lo2, hi2 = v - ulp, v + ulp
    for k, p in ((1, PI_FRAC), (-1, 1 / PI_FRAC)):
        c = _simplest(lo2 / p, hi2 / p)
        if c.denominator <= 700000 and c.numerator <= 700000:
            return (s * c, k)
    return (s * r, 0)


@lru_cache(maxsize=None)
def ideal_dec(x):
    return ideal(x)


# ---------------------------------------------------------------- traversal helpers
def topo(roots):
    """nodes in dependency order"""
    seen = set()
    out = []
    stack = [(r, False) for r in roots if isinstance(r, E)]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, E) and a.id not in seen:
                stack.append((a, False))
    return out


def variables(roots):
    return [n for n in topo(roots) if n.op == "var"]


def subst(e, m):
    """replace nodes by m (dict node -> node)"""
    memo = {}
    for n in topo([e]):
        if n in m:
            memo[n] = m[n]
        else:
            ch = False
            args = []
            for a in n.args:
                if isinstance(a, E):
                    b = memo[a]
                    ch |= b is not a
                    args.append(b)
                else:
                    args.append(a)
            if ch:
                r = mk(n.op, *args)
                if n.meta is not None and r.meta is None:
                    r.meta = n.meta
                memo[n] = r
            else:
                memo[n] = n
    return memo[e]
