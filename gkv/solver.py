"""z3 back end (exact reals, functions purified with axioms)."""
import z3, time
from fractions import Fraction
from expr import *
from numeric import ev_mp, NumErr
import mpmath as mp

PI_LO = Fraction(31415926535897932384626433832795028, 10**34)
PI_HI = Fraction(31415926535897932384626433832795029, 10**34)


def q(fr):
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


class Tr:
    """expression -> z3 term, with side axioms"""

    def __init__(self, exact=False):
        self.memo = {}
        self.ax = []
        self.n = 0
        self.exact = exact
        self.pi = z3.Real("pi")
        self.ax.append(z3.And(self.pi > q(PI_LO), self.pi < q(PI_HI)))
        self.trig = {}
        self.vals = {}

    def fresh(self, h):
        self.n += 1
        return z3.Real(f"{h}_{self.n}")

    def t(self, e):
        for n in topo([e]):
            if n not in self.memo:
                self.memo[n] = self.one(n)
        return self.memo[e]

    def one(self, n):
        op = n.op
        if op == "f":
            x = fval(n)
            if x != x or abs(x) == float("inf"):
                return self.fresh("inf")
            if self.exact:
                return q(Fraction(x))
            r, k = ideal(x)
            if k == 0:
                return q(r)
            return q(r) * self.pi if k == 1 else q(r) / self.pi
        if op == "q":
            return q(n.args[0])
        if op == "pi":
            return self.pi
        if op == "var":
            return z3.Real(n.args[0])
        if op == "ivar":
            return z3.Int(n.args[0])
        if op == "bvar":
            return z3.Bool(n.args[0])
        a = [self.memo[x] if isinstance(x, E) else x for x in n.args]
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            d = n.args[1]
            if d.op == "f":
                return a[0] / a[1]
            r = self.fresh("div")
            self.ax.append(z3.Implies(a[1] != 0, r * a[1] == a[0]))
            return r
        if op == "neg":
            return -a[0]
        if op == "fma":
            return a[0] * a[1] + a[2]
        if op == "powi":
            k = a[1]
            if k >= 0 and k <= 12:
                r = z3.RealVal(1)
                for _ in range(k):
                    r = r * a[0]
                return r
            r = self.fresh("pow")
            return r
        if op == "lt":
            return a[0] < a[1]
        if op == "le":
            return a[0] <= a[1]
        if op == "feq":
            return a[0] == a[1]
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(a[0], a[1])
        if op == "or":
            return z3.Or(a[0], a[1])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "iadd":
            return a[0] + a[1]
        if op == "isub":
            return a[0] - a[1]
        if op == "imul":
            return a[0] * a[1]
        if op == "ilt":
            return a[0] < a[1]
        if op == "ile":
            return a[0] <= a[1]
        if op == "ieq":
            return a[0] == a[1]
        if op == "ofint":
            return z3.ToReal(a[0])
        if op == "ubool":
            return z3.Bool("ub_%d" % n.id)
        if op in ("isnan", "isfinite", "isinf", "signbit"):
            return z3.Bool("b_%d" % n.id)
        r = self.fresh(op)
        A = self.ax
        x = a[0] if a else None
        if op in ("sin", "cos"):
            key = n.args[0]
            s, c = self.trig.get(key, (None, None))
            if s is None:
                s, c = self.fresh("s"), self.fresh("c")
                self.trig[key] = (s, c)
                A.append(s * s + c * c == 1)
                A.append(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
                A.append(z3.Implies(z3.And(x >= 0, x <= self.pi), s >= 0))
                A.append(z3.Implies(z3.And(x <= 0, x >= -self.pi), s <= 0))
                A.append(z3.Implies(z3.And(x > 0, x < self.pi), s > 0))
                A.append(z3.Implies(z3.And(x < 0, x > -self.pi), s < 0))
                A.append(z3.Implies(z3.And(2 * x >= -self.pi, 2 * x <= self.pi), c >= 0))
                A.append(z3.Implies(z3.And(2 * x > -self.pi, 2 * x < self.pi), c > 0))
                A.append(z3.Implies(x == 0, z3.And(s == 0, c == 1)))
            return s if op == "sin" else c
        if op in ("sinh", "cosh", "tanh"):
            key = ("h", n.args[0])
            if key not in self.trig:
                S, C = self.fresh("sh"), self.fresh("ch")
                self.trig[key] = (S, C)
                A.append(C * C == 1 + S * S)
                A.append(z3.And(C >= 1, z3.Implies(x > 0, S > 0), z3.Implies(x < 0, S < 0), z3.Implies(x == 0, S == 0)))
            S, C = self.trig[key]
            if op == "sinh":
                return S
            if op == "cosh":
                return C
            A.append(z3.And(r * C == S, r < 1, r > -1))
            return r
        if op == "tan":
            pass
        elif op == "sqrt":
            A.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            A.append(r >= 0)
        elif op == "hypot":
            A.append(z3.And(r >= 0, r * r == x * x + a[1] * a[1], r >= x, r >= -x, r >= a[1], r >= -a[1]))
        elif op == "cbrt":
            A.append(r * r * r == x)
            A.append(z3.And(z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0), z3.Implies(x == 0, r == 0)))
        elif op == "abs":
            return z3.If(x >= 0, x, -x)
        elif op == "exp":
            A.append(r > 0)
            A.append(z3.And(z3.Implies(x > 0, r > 1), z3.Implies(x < 0, r < 1), z3.Implies(x == 0, r == 1), r >= 1 + x))
        elif op == "ln":
            A.append(z3.And(z3.Implies(x > 1, r > 0), z3.Implies(z3.And(x > 0, x < 1), r < 0), z3.Implies(x == 1, r == 0)))
        elif op in ("sinh", "asinh", "atan", "tan", "tanh", "atanh", "asin"):
            A.append(z3.And(z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0), z3.Implies(x == 0, r == 0)) if op != "tan" else z3.BoolVal(True))
            if op == "atan":
                A.append(z3.And(2 * r < self.pi, 2 * r > -self.pi))
            if op == "asin":
                A.append(z3.And(2 * r <= self.pi, 2 * r >= -self.pi))
            if op == "tanh":
                A.append(z3.And(r < 1, r > -1))
        elif op == "cosh":
            A.append(r >= 1)
        elif op == "acos":
            A.append(z3.And(r >= 0, r <= self.pi))
        elif op == "atan2":
            A.append(z3.And(r <= self.pi, r > -self.pi))
            A.append(z3.Implies(x > 0, z3.And(r > 0, r < self.pi)))
            A.append(z3.Implies(x < 0, z3.And(r < 0, r > -self.pi)))
            A.append(z3.Implies(z3.And(x == 0, a[1] > 0), r == 0))
            A.append(z3.Implies(a[1] > 0, z3.And(2 * r < self.pi, 2 * r > -self.pi)))
            if isinstance(self, LinTr):
                A.append(z3.Implies(a[1] >= 0, z3.And(2 * r <= self.pi, 2 * r >= -self.pi)))
            A.append(z3.Implies(a[1] > 0, z3.And(z3.Implies(x <= a[1], 4 * r <= self.pi), z3.Implies(x >= a[1], 4 * r >= self.pi), z3.Implies(x >= -a[1], 4 * r >= -self.pi), z3.Implies(x <= -a[1], 4 * r <= -self.pi))))
        elif op in ("rte", "round", "floor", "ceil", "trunc"):
            k = z3.Int(f"k_{n.id}")
            kr = z3.ToReal(k)
            A.append(r == kr)
            if op == "rte" or op == "round":
                A.append(z3.And(kr - x <= q(Fraction(1, 2)), x - kr <= q(Fraction(1, 2))))
                if op == "rte":
                    j = z3.Int(f"j_{n.id}")
                    A.append(z3.Implies(z3.Or(kr - x == q(Fraction(1, 2)), x - kr == q(Fraction(1, 2))), k == 2 * j))
            elif op == "floor":
                A.append(z3.And(kr <= x, x < kr + 1))
            elif op == "ceil":
                A.append(z3.And(kr >= x, x > kr - 1))
            else:
                A.append(z3.And(z3.Implies(x >= 0, z3.And(kr <= x, x < kr + 1, kr >= 0)), z3.Implies(x <= 0, z3.And(kr >= x, x > kr - 1, kr <= 0))))
            return r
        elif op == "toint":
            k = z3.Int(f"k_{n.id}")
            kr = z3.ToReal(k)
            A.append(z3.And(z3.Implies(x >= 0, z3.And(kr <= x, x < kr + 1)), z3.Implies(x <= 0, z3.And(kr >= x, x > kr - 1))))
            return k
        elif op == "fmod":
            k = z3.Int(f"k_{n.id}")
            A.append(r == x - a[1] * z3.ToReal(k))
            y = a[1]
            A.append(z3.Implies(y > 0, z3.And(r < y, r > -y)))
            A.append(z3.And(z3.Implies(x >= 0, z3.And(r >= 0, k >= 0)), z3.Implies(x <= 0, z3.And(r <= 0, k <= 0))))
            A.append(z3.Implies(z3.And(y > 0, x < y, x > -y), r == x))
        return r


def const(n):
    return n.op in ("f", "q", "pi") or n.op in ("neg", "mul", "div", "add", "sub") and all(const(x) for x in n.args)


class LinTr(Tr):
    """linear relaxation: products, quotients and functions are any value in their interval"""

    LIN = ("f", "q", "pi", "var", "ivar", "bvar", "add", "sub", "neg", "lt", "le", "feq", "not", "and", "or", "true", "false", "iadd", "isub", "ilt", "ile", "ieq",
           "ofint", "ubool", "isnan", "isfinite", "isinf", "signbit", "abs", "rte", "round", "floor", "ceil", "trunc", "toint", "fmod")

    def __init__(self, ia):
        Tr.__init__(self)
        self.ia = ia

    def one(self, n):
        if n.op in self.LIN or n.op == "mul" and (const(n.args[0]) or const(n.args[1])) or n.op == "div" and const(n.args[1]):
            return Tr.one(self, n)
        r = Tr.one(self, n) if n.op in ("atan2", "atan", "asin", "acos", "exp", "ln", "atanh", "asinh") else self.fresh("nl")
        if n.op == "hypot":
            a = [self.memo[x] for x in n.args]
            self.ax += [r >= a[0], r >= -a[0], r >= a[1], r >= -a[1]]
        try:
            lo, hi = self.ia.ev(n)
            if lo > -1e300:
                self.ax.append(r >= q(Fraction(lo)))
            if hi < 1e300:
                self.ax.append(r <= q(Fraction(hi)))
        except Exception:
            pass
        return r


class Z3Solver:
    def __init__(self, timeout_ms=300):
        self.timeout = timeout_ms
        self.cache = {}
        self.gcache = {}
        self.eqkeys = {}
        self.time = 0.0
        self.queries = 0

    def ground(self, c):
        if c in self.gcache:
            return self.gcache[c]
        r = None
        ns = topo([c])
        if not any(n.op in ("var", "ivar", "bvar", "uf", "ubool", "isnan", "isinf", "isfinite", "signbit") for n in ns):
            try:
                v = ev_mp([c], {})[c]
                if isinstance(v, bool) or str(v) in ("True", "False"):
                    r = bool(v)
            except NumErr:
                r = None
        self.gcache[c] = r
        return r

    def simp(self, c):
        """a condition with its terms in rational normal form where that is smaller"""
        if c.op not in ("lt", "le", "feq"):
            return c
        if self.canon is None:
            from prove import PathProver

            self.canon, self.simpmemo = PathProver([], []), {}
            self.canon.keep_hypot = True
            self.canon_eq = PathProver([], [])
        r = self.simpmemo.get(c)
        if r is None:
            try:
                r = mk(c.op, *[self.canon.shallow(x) for x in c.args])
            except Exception:
                r = c
            self.simpmemo[c] = r
        return r

    canon = None

    def eq_conflict(self, pc):
        """an equation and the negation of an equivalent one"""
        if sum(1 for c, _ in pc if c.op == "feq") < 2:
            return False
        seen = {}
        for c, b in pc:
            if c.op != "feq":
                continue
            if self.canon is None:
                self.simp(mk("feq", ZERO, ONE))
            k = self.eqkeys.get(c)
            if k is None:
                try:
                    k = self.canon_eq.eqkey(c)
                except Exception:
                    k = None
                if k is None:
                    k = c
                self.eqkeys[c] = k
            if k == () and not b or seen.setdefault(k, b) != b:
                return True
        return False

    def feasible(self, pc):
        key = frozenset((c.id, b) for c, b in pc)
        if key in self.cache:
            return self.cache[key]
        from interval import IA

        if self.eq_conflict(pc) or IA(pc).infeasible or IA([(self.simp(c), b) for c, b in pc]).infeasible:
            res = False
        elif sum(1 for n in topo([c for c, _ in pc]) if n.op in ("mul", "div", "powi") and not const(n.args[0]) and not (isinstance(n.args[1], E) and const(n.args[1]))) > 25:
            # too large for z3's arithmetic: only its linear relaxation
            spc = [(self.simp(c), b) for c, b in pc]
            res = self.check(pc, [], self.timeout, tr=LinTr(IA(pc))) != "unsat" and self.check(spc, [], self.timeout, tr=LinTr(IA(spc))) != "unsat"
        else:
            res = self.check(pc, [], self.timeout, tr=LinTr(IA(pc))) != "unsat" and self.check(pc, [], self.timeout) != "unsat"
        self.cache[key] = res
        return res

    def check(self, pc, extra, timeout, model=None, tr=None):
        """sat / unsat / unknown for pc and z3-level negated goals built from expressions"""
        t0 = time.time()
        self.queries += 1
        tr = tr or Tr()
        s = z3.Solver()
        s.set("timeout", timeout)
        for c, b in pc:
            z = tr.t(c)
            s.add(z if b else z3.Not(z))
        for e in extra:
            s.add(e(tr))
        for a in tr.ax:
            s.add(a)
        r = str(s.check())
        if r == "sat" and model is not None:
            model.append(s.model())
        self.time += time.time() - t0
        return r
