"""Mode fp: floating point as *rounded* reals.

Every f64 operation is a real variable v = fl(e) constrained by IEEE-754 facts only:
  |v - e| <= 2^-53 |e| + 2^-1075,
  rounding is monotone and exact on representable numbers: e <= w => v <= w and e >= w => v >= w
  for every f64-valued w among the constants of the query, their opposites, and the operands,
  Sterbenz: y/2 <= x <= 2y => fl(x - y) = x - y,
  fmod, abs, neg and comparisons are exact.
Constants keep their exact binary value (pi is the f64 PI here).  No overflow and no NaN: the harness
ranges exclude them."""
import z3, time
from fractions import Fraction
from expr import *
from solver import q
import solver as S

U = Fraction(1, 2**53)
ETA = Fraction(1, 2**1074)


class TrFP(S.Tr):
    def __init__(self, nodes):
        super().__init__(exact=True)
        cs = set()
        for n in topo(nodes):
            if n.op == "f":
                x = fval(n)
                if x == x and abs(x) != float("inf"):
                    cs.add(Fraction(x))
                    cs.add(-Fraction(x))
        cs.add(Fraction(0))
        self.consts = sorted(cs)

    def rnd(self, e, ops, exact_if=None):
        v = self.fresh("fl")
        A = self.ax
        d = z3.If(e >= 0, e, -e) * q(U) + q(ETA)
        A.append(z3.And(v - e <= d, e - v <= d))
        for c in self.consts:
            A.append(z3.And(z3.Implies(e <= q(c), v <= q(c)), z3.Implies(e >= q(c), v >= q(c))))
        for w in ops:
            A.append(z3.And(z3.Implies(e <= w, v <= w), z3.Implies(e >= w, v >= w)))
        if exact_if is not None:
            A.append(z3.Implies(exact_if, v == e))
        return v

    def one(self, n):
        op = n.op
        if op in ("add", "sub", "mul", "div", "fma"):
            a = [self.memo[x] for x in n.args]
            if op == "add":
                y = -a[1]
                ex = z3.Or(z3.And(a[0] <= 2 * y, y <= 2 * a[0]), z3.And(2 * y <= a[0], 2 * a[0] <= y))
                return self.rnd(a[0] + a[1], a, ex)
            if op == "sub":
                y = a[1]
                ex = z3.Or(z3.And(a[0] >= 0, a[0] <= 2 * y, y <= 2 * a[0]), z3.And(a[0] <= 0, 2 * y <= a[0], 2 * a[0] <= y))
                return self.rnd(a[0] - a[1], a, ex)
            if op == "mul":
                return self.rnd(a[0] * a[1], a)
            if op == "div":
                r = self.fresh("quo")
                self.ax.append(z3.Implies(a[1] != 0, r * a[1] == a[0]))
                return self.rnd(r, a)
            return self.rnd(a[0] * a[1] + a[2], a)
        if op == "fmod":
            x, y = self.memo[n.args[0]], self.memo[n.args[1]]
            r = self.fresh("fmod")
            A = self.ax
            ay = z3.If(y >= 0, y, -y)
            A.append(z3.Implies(y != 0, z3.And(r < ay, r > -ay)))
            A.append(z3.And(z3.Implies(x >= 0, z3.And(r >= 0, r <= x)), z3.Implies(x <= 0, z3.And(r <= 0, r >= x))))
            A.append(z3.Implies(z3.And(y != 0, x < ay, x > -ay), r == x))
            return r
        if op in ("sin", "cos", "tan", "atan", "asin", "acos", "atan2", "exp", "ln", "sinh", "cosh", "tanh", "asinh", "atanh", "cbrt", "sqrt", "hypot", "powf", "powi", "uf", "max", "min"):
            # any value
            return self.fresh(op)
        return super().one(n)


class Z3FP(S.Z3Solver):
    def ground(self, c):
        return None

    def feasible(self, pc):
        # floating point only: no reasoning over the reals here
        key = frozenset((c.id, b) for c, b in pc)
        if key not in self.cache:
            self.cache[key] = self.check(pc, [], self.timeout) != "unsat"
        return self.cache[key]

    def check(self, pc, extra, timeout, model=None):
        t0 = time.time()
        self.queries += 1
        tr = TrFP([c for c, _ in pc] + [c for c, _ in extra])
        s = z3.Solver()
        s.set("timeout", timeout)
        for c, b in list(pc) + list(extra):
            z = tr.t(c)
            s.add(z if b else z3.Not(z))
        for a in tr.ax:
            s.add(a)
        r = str(s.check())
        if r == "sat" and model is not None:
            model.append(s.model())
        self.time += time.time() - t0
        return r


class FPProver:
    """obligations of a path of a mode fp harness"""

    def __init__(self, inputs, pc, seed=1, budget=20.0):
        self.inputs, self.pc, self.seed = inputs, list(pc), seed
        self.z3n, self.z3time = 0, 0.0

    def _check(self, extra, ms=8000):
        s = Z3FP()
        r = s.check(self.pc, extra, ms)
        self.z3n += s.queries
        self.z3time += s.time
        return r

    def prove(self, ob):
        from prove import Verdict

        k = ob.kind
        if k == "trivial":
            return Verdict("proved", "path")
        if k == "unreachable":
            neg = []
        elif k == "le":
            neg = [(mk("lt", ob.args[1], ob.args[0]), True)]
        elif k == "eq":
            neg = [(mk("feq", ob.args[0], ob.args[1]), False)]
        else:
            return Verdict("unknown", "kind " + k)
        r = self._check(neg)
        if r == "unsat":
            return Verdict("proved", "z3 (rounded reals)")
        return Verdict("unknown", "rounded reals: " + r)

    def tol_at(self, ob, v):
        return None

    def native_points(self, n, hunt=False):
        from prove import PathProver

        p = PathProver(self.inputs, self.pc, seed=self.seed)
        return p.native_points(n)
