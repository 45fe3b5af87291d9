"""Discharging obligations of one path."""
import time, math, itertools
from fractions import Fraction
import numpy as np
import mpmath as mp
import z3
from expr import *
from numeric import *
from interval import IA, Empty
from norm import Sweeper, Norm, RF, TooBig, Rebase, Deadline, const_node
from solver import Tr, Z3Solver, q


class Verdict:
    def __init__(self, status, how="", point=None, diff=None):
        self.status = status  # proved / refuted / unknown
        self.how = how
        self.point = point  # dict name -> float
        self.diff = diff

    def __repr__(self):
        return f"{self.status}({self.how})"


def ok_conds(pc, env):
    v = ev_mp([c for c, _ in pc], env)
    for c, b in pc:
        x = v[c]
        if bool(x) != b:
            return False
    return True


def pinned(pc):
    """x <= c and x >= c for a constant c: x == c"""
    lo, hi = {}, {}
    nm = Norm()
    have = {(c, b) for c, b in pc}

    def ck(y):
        try:
            return nm.nf(y).key
        except (TooBig, Rebase):
            return y.id

    out = []
    for c, b in pc:
        if c.op not in ("lt", "le"):
            continue
        x, y = c.args
        if c.op == "lt" and b or c.op == "le" and not b:
            continue  # strict
        if c.op == "lt":
            x, y = y, x  # not(x < y): y <= x
        # x <= y
        if const_node(y) and not const_node(x):
            hi.setdefault(x, {})[ck(y)] = y
        elif const_node(x) and not const_node(y):
            lo.setdefault(y, {})[ck(x)] = x
    for x in hi:
        for k in hi[x]:
            if k in lo.get(x, {}):
                e = (mk("feq", x, hi[x][k]), True)
                if e not in have:
                    out.append(e)
    return out


INVP = {("tan", "atan"), ("sin", "asin"), ("cos", "acos"), ("asinh", "sinh"), ("sinh", "asinh"), ("tanh", "atanh"), ("atanh", "tanh"), ("ln", "exp")}
FIX0 = {k: ZERO for k in ("sqrt", "sin", "tan", "sinh", "tanh", "asin", "atan", "asinh", "atanh", "cbrt", "abs", "floor", "trunc", "rte", "round", "expm1", "log1p")}
FIX0.update({"cos": ONE, "cosh": ONE, "exp": ONE})


def replace_node(e, x, y):
    memo = {x: y}
    for n in topo([e]):
        if n not in memo:
            a = [memo[k] if isinstance(k, E) else k for k in n.args]
            memo[n] = n if all(p is q for p, q in zip(a, n.args)) else mk(n.op, *a)
    return memo[e]


def diff(e, v):
    """symbolic derivative of e with respect to the variable v"""
    memo = {}
    mul, add, sub, div, neg = (lambda *a, o=o: mk(o, *a) for o in ("mul", "add", "sub", "div", "neg"))
    for n in topo([e]):
        A = [k for k in n.args if isinstance(k, E)]
        D = [memo[k] for k in A]
        if n is v:
            memo[n] = ONE
            continue
        if all(x is ZERO for x in D):
            memo[n] = ZERO
            continue
        o = n.op
        if o == "add":
            r = D[0] if D[1] is ZERO else D[1] if D[0] is ZERO else add(*D)
        elif o == "sub":
            r = D[0] if D[1] is ZERO else neg(D[1]) if D[0] is ZERO else sub(*D)
        elif o == "neg":
            r = neg(D[0])
        elif o in ("mul", "fma"):
            p = None
            for i in (0, 1):
                if D[i] is not ZERO:
                    t = mul(D[i], A[1 - i])
                    p = t if p is None else add(p, t)
            if o == "fma" and D[2] is not ZERO:
                p = D[2] if p is None else add(p, D[2])
            r = p
        elif o == "div":
            r = div(D[0], A[1]) if D[0] is not ZERO else None
            if D[1] is not ZERO:
                t = div(mul(A[0], D[1]), mul(A[1], A[1]))
                r = neg(t) if r is None else sub(r, t)
        else:
            x, one = A[0], ONE
            x2 = mul(x, x)
            f = {
                "sin": lambda: mk("cos", x), "cos": lambda: neg(mk("sin", x)), "tanh": lambda: div(one, mul(mk("cosh", x), mk("cosh", x))),
                "sinh": lambda: mk("cosh", x), "cosh": lambda: mk("sinh", x), "atanh": lambda: div(one, sub(one, x2)), "atan": lambda: div(one, add(one, x2)),
                "asinh": lambda: div(one, mk("sqrt", add(one, x2))), "exp": lambda: n, "ln": lambda: div(one, x), "sqrt": lambda: div(one, mul(fconst(2.0), n)),
                "tan": lambda: add(one, mul(n, n)), "asin": lambda: div(one, mk("sqrt", sub(one, x2))), "acos": lambda: div(neg(one), mk("sqrt", sub(one, x2))),
            }.get(o)
            if f is None:
                raise NotImplementedError(o)
            r = mul(f(), D[0])
        memo[n] = r
    return memo[e]


class PathProver:
    keep_hypot = False

    def __init__(self, inputs, pc, seed=1, npoints=5, budget=20.0, fp=False, depth=0):
        self.depth = depth
        self.subs = {}
        self.weak = None
        self.shnm = self.shm = None
        self._ninf = None
        self.fp = fp
        self.inputs = inputs
        self.pc = list(pc) + pinned(pc)
        self.seed = seed
        self.ia = None
        self._points = None
        self.np_points = None
        self.npoints = npoints
        self.sw = None
        self.budget = budget
        self.smemo = {}
        self.z3time = 0.0
        self.z3n = 0

    def iaof(self):
        if self.ia is None:
            self.ia = IA(self.pc)
        return self.ia

    def box(self, nodes=()):
        ia = self.iaof()
        b = {}
        for n in topo([c for c, _ in self.pc] + list(nodes)):
            if n.op == "var" and n in ia.bound:
                b[n.args[0]] = ia.bound[n]
        return b

    def points(self, nodes=()):
        """mp points satisfying the path condition (over the idealised reals)"""
        if self._points is not None:
            for n in topo(list(nodes)):
                if n.op == "var":
                    for e in self._points:
                        e.setdefault(n.args[0], mp.mpf("0.37"))
            return self._points
        extra = [n.args[0] for n in topo([c for c, _ in self.pc] + list(nodes)) if n.op in ("var",)]
        pts = []
        raw = []
        for n, s in ((4000, 0), (60000, 1)):
            env, k = sample(self.inputs, self.pc, n, self.seed + s, extra, self.box(nodes))
            self.np_points = env
            if k:
                order = list(range(k))
                # spread: generic points first (avoid end points and special values)
                def generic(i):
                    return sum(1 for v in env.values() if v[i] == round(v[i], 3))

                order.sort(key=lambda i: (generic(i), (i * 7919) % k))
                for i in order[: 40]:
                    e = {nm: mp.mpf(float(v[i])) for nm, v in env.items()}
                    if self.consistent(e):
                        pts.append(e)
                    else:
                        # the idealised counterpart of special values (pi, ...)
                        e = {nm: self.snap(float(v[i])) for nm, v in env.items()}
                        if self.consistent(e):
                            pts.append(e)
                    if len(pts) >= self.npoints:
                        break
            if pts:
                break
        if not pts:
            pts = self.model_points(extra)
        self._points = pts
        return pts

    def snap(self, x):
        if x == 0 or abs(x) == math.inf or x != x:
            return mp.mpf(x)
        r, k = ideal(x)
        return mp.mpf(r.numerator) / r.denominator * mp.pi ** k

    def consistent(self, e):
        # equalities: recompute substituted variables in mp
        for c, b in self.pc:
            if b and c.op == "feq":
                for x, y in (c.args, c.args[::-1]):
                    if x.op == "var" and x not in topo([y]):
                        try:
                            e[x.args[0]] = ev_mp([y], e)[y]
                        except NumErr:
                            return False
                        break
        try:
            return ok_conds(self.pc, e)
        except NumErr:
            return False

    def model_points(self, extra):
        s = Z3Solver()
        m = []
        r = s.check(self.pc, [], 3000, m)
        if r != "sat" or not m:
            return []
        e = {}
        for d in m[0].decls():
            nm = d.name()
            if d.arity() == 0 and nm in extra:
                v = m[0][d]
                try:
                    if z3.is_algebraic_value(v):
                        v = v.approx(40)
                    f = v.as_fraction()
                    e[nm] = mp.mpf(f.numerator) / f.denominator
                except Exception:
                    pass
        for nm in extra:
            e.setdefault(nm, mp.mpf("0.37"))
        return [e] if self.consistent(e) else []

    # ---------------------------------------------------------------- signs
    def sign(self, e):
        if e in self.smemo:
            return self.smemo[e]
        r = self._sign(e)
        self.smemo[e] = r
        return r

    def _sign(self, e):
        try:
            lo, hi = self.iaof().ev(e)
            if lo >= 0:
                return "+"
            if hi <= 0:
                return "-"
        except Empty:
            return "+"
        pts = self.points()
        sg = set()
        for p in pts:
            try:
                v = ev_mp([e], p)[e]
            except NumErr:
                return None
            if not mp.isfinite(v):
                return None
            sg.add(1 if v > 0 else -1 if v < 0 else 0)
        sg.discard(0)
        if len(sg) != 1:
            return None
        s = sg.pop()
        z = ZERO
        neg = (mk("lt", e, z), True) if s > 0 else (mk("lt", z, e), True)
        if self.unsat([neg], 1500):
            return "+" if s > 0 else "-"
        return None

    def nonzero(self, e):
        try:
            lo, hi = self.iaof().ev(e)
            if lo > 0 or hi < 0:
                return True
        except Empty:
            return True
        return self.unsat([(mk("feq", e, ZERO), True)], 800)

    def relevant(self, extra):
        """path conditions connected to the goal (cone of influence over variables)"""
        goalvars = set(n for c, _ in extra for n in topo([c]) if n.op in ("var", "ivar", "uf"))
        out = []
        rest = [(c, b, set(n for n in topo([c]) if n.op in ("var", "ivar", "uf"))) for c, b in self.pc]
        # ranges of the goal variables first; one closure step
        out = [(c, b) for c, b, vs in rest if vs and vs <= goalvars]
        return out

    def unsat(self, extra, ms):
        """pc and extra unsatisfiable?"""
        try:
            if IA(self.pc + extra).infeasible:
                return True
        except Empty:
            return True
        t0 = time.time()
        s = Z3Solver()
        r = "unknown"
        near = self.relevant(extra)
        if len(near) < len(self.pc):
            r = s.check(near + extra, [], ms)
        if r != "unsat":
            r = s.check(self.pc + extra, [], ms)
        self.z3time += time.time() - t0
        self.z3n += s.queries
        return r == "unsat"

    # ---------------------------------------------------------------- obligations
    def sweeper(self, nodes=()):
        if self.sw is None:
            self.sw = Sweeper(self.pc, self.points(nodes), self.sign, self.budget, nonzero=self.nonzero)
        return self.sw

    def tol_at(self, ob, v):
        """value of the contract's tolerance at the refuting point"""
        if ob.kind not in ("eq", "near", "le", "cong") or v.point is None:
            return None
        try:
            return float(ev_mp([ob.args[-1]], {k: mp.mpf(x) for k, x in v.point.items()})[ob.args[-1]])
        except Exception:
            return None

    def native_points(self, n, hunt=False):
        self.points()
        out = []
        env = self.np_points
        if env:
            k = min(len(v) for v in env.values()) if env else 0
            step = max(1, k // n)
            for i in range(0, min(k, n * step), step):
                out.append({nm: float(v[i]) for nm, v in env.items()})
        if not out:
            out = [self.to_native(p) for p in (self._points or [])]
        if not out and hunt and not self._ninf and not self.iaof().infeasible:
            extra = [x.args[0] for x in topo([c for c, _ in self.pc]) if x.op == "var"]
            out = seek(self.inputs, self.pc, self.seed, extra, self.box())
        return out

    def to_native(self, p):
        return {k: float(v) for k, v in p.items()}

    def split_nodes(self, nodes):
        """arguments of absolute values whose sign the path does not settle"""
        out = []
        for n in topo(list(nodes)):
            if n.op == "abs" and self.sign(n.args[0]) is None:
                out.append(n.args[0])
        return out

    def prove(self, ob):
        a = ob.args
        if ob.kind in ("eq", "near") and self.shallow_eq(a[0], a[1]) or ob.kind == "cong" and self.shallow_cong(*a[:3]):
            return Verdict("proved", "congruence and rational algebra")
        if ob.kind == "near" and self.lipschitz(a[0], a[1], a[2]):
            return Verdict("proved", "mean value bound")
        if ob.kind in ("trivial", "unreachable") or self.depth >= 3 or self.iaof().infeasible:
            return self.prove1(ob)
        if not self.points(ob.args):
            return self.prove1(ob)
        sp = self.split_nodes(ob.args)
        if not sp:
            return self.prove1(ob)
        x = sp[0]
        subs = self.subs.get(x)
        if subs is None:
            c = mk("le", ZERO, x)
            subs = self.subs[x] = [PathProver(self.inputs, self.pc + [(c, b)], self.seed, self.npoints, self.budget, self.fp, self.depth + 1) for b in (True, False)]
        vs = []
        for p in subs:
            n0, t0 = p.z3n, p.z3time
            v = p.prove(ob)
            self.z3n += p.z3n - n0
            self.z3time += p.z3time - t0
            if v.status == "refuted":
                return v
            vs.append(v)
            if v.status != "proved":
                break
        if all(v.status == "proved" for v in vs):
            return Verdict("proved", vs[0].how + ", sign split")
        return self.prove1(ob) if ob.kind == "le" else vs[-1]

    RAT = ("add", "sub", "mul", "div", "neg", "fma", "powi")

    def nonneg(self, x):
        try:
            return self.shia.ev(x)[0] >= 0
        except Empty:
            return False

    def small(self, x, m):
        """|x| < m from the bounds on the inputs"""
        if self.shia is None:
            return False
        try:
            lo, hi = self.shia.ev(x)
            return max(abs(lo), abs(hi)) < self.shia.ev(m)[0] * (1 - 1e-9)
        except Empty:
            return False

    def zero_const(self, nm, x):
        try:
            return nm.nf(x).is_zero()
        except (TooBig, Rebase):
            return False

    def shallow(self, e):
        """e with the arguments of its functions (and e itself) in rational normal form where that is smaller;
        equal to e over the reals wherever e is defined"""
        if self.shnm is None:
            self.shnm, self.shm = Norm(deadline=Deadline(1e9)), {}
            self.shrep = {}
            try:
                self.shia = IA([(c, b) for c, b in self.pc if len([n for n in topo([c]) if n.op == "var"]) <= 1])
            except Empty:
                self.shia = None
            for c, b in self.pc:
                if b and c.op == "feq":
                    for x, y in (c.args, c.args[::-1]):
                        if const_node(y) and not const_node(x):
                            try:
                                f = self.shnm.nf(x)
                            except (TooBig, Rebase):
                                continue
                            v = self.shnm.to_expr(f)
                            if v.op == "var":
                                self.shm[v] = y
        nm, memo = self.shnm, self.shm
        nm.deadline = Deadline(4)

        def canon(x):
            if x.op not in self.RAT:
                return x
            try:
                f = nm.nf(x)
                y = nm.to_expr(f)
            except (TooBig, Rebase):
                return x
            r = self.shrep.get(f.key)
            if r is None:
                r = self.shrep[f.key] = y if len(topo([y])) < len(topo([x])) else x
            return r

        for n in topo([e]):
            if n in memo:
                continue
            if n.op in ("var", "ivar", "f", "q", "pi"):
                memo[n] = n
            elif n.op in self.RAT:
                m = mk(n.op, *[memo[a] if isinstance(a, E) else a for a in n.args])
                # cancellation in small quotients
                memo[n] = canon(m) if n.op == "div" and not const_node(n.args[1]) and len(topo([m])) <= 40 else m
            elif n.op == "fmod":
                x, y = canon(memo[n.args[0]]), canon(memo[n.args[1]])
                if self.small(x, y):
                    memo[n] = x
                else:
                    t = mk("trunc", canon(mk("div", x, y)))
                    nm.opaque[t] = True
                    memo[n] = mk("sub", x, mk("mul", y, t))
            elif n.op in FIX0 and self.zero_const(nm, memo[n.args[0]]):
                memo[n] = FIX0[n.op]
            elif n.op == "trunc" and self.shia is not None and self.nonneg(memo[n.args[0]]):
                memo[n] = mk("floor", canon(memo[n.args[0]]))
                nm.opaque[memo[n]] = True
            elif n.op == "abs" and self.shia is not None:
                x = canon(memo[n.args[0]])
                try:
                    lo, hi = self.shia.ev(x)
                except Empty:
                    lo, hi = 0, 0
                memo[n] = x if lo >= 0 else mk("neg", x) if hi <= 0 else mk("abs", x)
                if memo[n].op == "abs":
                    nm.opaque[memo[n]] = True
            else:
                ar = [canon(memo[a]) if isinstance(a, E) else a for a in n.args]
                flip = False
                if n.op in ("cos", "cosh", "sin", "tan", "sinh", "tanh", "atan", "asin", "asinh", "atanh"):
                    try:
                        f = nm.nf(ar[0])
                        if f.num and f.num[min(f.num)] < 0:
                            flip = n.op not in ("cos", "cosh")
                            ar = [canon(mk("neg", ar[0]))]
                    except (TooBig, Rebase):
                        pass
                    while True:
                        if ar[0].op == "neg":
                            ar = [ar[0].args[0]]
                        elif ar[0].op == "mul" and ar[0].args[0].op == "q" and ar[0].args[0].args[0] == -1:
                            ar = [ar[0].args[1]]
                        else:
                            break
                        flip ^= n.op not in ("cos", "cosh")
                i = ar[0] if ar and isinstance(ar[0], E) else None
                if i is not None and (n.op, i.op) in INVP:
                    m = i.args[0]
                elif i is not None and n.op in ("sin", "cos") and i.op == "atan":
                    t = i.args[0]
                    q_ = mk("sqrt", canon(mk("add", ONE, mk("mul", t, t))))
                    nm.opaque[q_] = True
                    m = mk("div", t if n.op == "sin" else ONE, q_)
                elif n.op in ("sin", "cos") and self.atans(nm, ar[0]):
                    # of a sum of arc tangents
                    sc = None
                    for t, sg in self.atans(nm, ar[0]):
                        q_ = mk("sqrt", canon(mk("add", ONE, mk("mul", t, t))))
                        nm.opaque[q_] = True
                        s1, c1 = mk("div", t if sg > 0 else mk("neg", t), q_), mk("div", ONE, q_)
                        if sc is None:
                            sc = (s1, c1)
                        else:
                            sc = (mk("add", mk("mul", sc[0], c1), mk("mul", sc[1], s1)), mk("sub", mk("mul", sc[1], c1), mk("mul", sc[0], s1)))
                    m = sc[0] if n.op == "sin" else sc[1]
                elif n.op == "hypot" and not self.keep_hypot:
                    m = mk("sqrt", canon(mk("add", mk("mul", ar[0], ar[0]), mk("mul", ar[1], ar[1]))))
                    nm.opaque[m] = True
                elif n.op == "tan" and i.op == "atan2":
                    m = mk("div", i.args[0], i.args[1])
                elif i is not None and (n.op, i.op) in (("cos", "asin"), ("sin", "acos")):
                    m = mk("sqrt", canon(mk("sub", ONE, mk("mul", i.args[0], i.args[0]))))
                    nm.opaque[m] = True
                else:
                    m = mk(n.op, *ar)
                    nm.opaque[m] = True
                memo[n] = mk("neg", m) if flip else m
        return canon(memo[e])

    def atans(self, nm, x):
        """x = +-atan(t1) +- atan(t2): [(t1, sign), (t2, sign)]"""
        if x.op not in ("add", "sub"):
            return None
        try:
            f = nm.nf(x)
        except (TooBig, Rebase):
            return None
        r = []
        if f.den or len(f.num) > 2:
            return None
        for mo, c in f.num.items():
            if len(mo) != 1 or mo[0][1] != 1 or abs(c) != 1:
                return None
            a = nm.atoms[mo[0][0]][1]
            if a is None or a.op != "atan":
                return None
            r.append((a.args[0], 1 if c > 0 else -1))
        return r

    def eqkey(self, c):
        """equations with the same key are equivalent (where defined)"""
        try:
            d = self.shallow(mk("sub", *c.args))
            self.shnm.deadline = Deadline(3)
            f = self.shnm.nf(d)
        except (TooBig, Rebase):
            return None
        if not f.num:
            return ()
        k = f.num[min(f.num)]
        return frozenset((m, v / k) for m, v in f.num.items())

    def shallow_eq(self, a, b):
        try:
            x, y = self.shallow(a), self.shallow(b)
            if x is y:
                return True
            self.shnm.deadline = Deadline(5)
            return self.shnm.nf(mk("sub", x, y)).is_zero()
        except (TooBig, Rebase):
            return False

    def shallow_cong(self, got, want, m):
        try:
            d = self.shallow(mk("div", mk("sub", got, want), m))
            nm = self.shnm
            nm.deadline = Deadline(5)
            f = nm.nf(d)
            INT = ("trunc", "floor", "ceil", "rte", "round")
            isint = lambda a: nm.atoms[a][1] is not None and nm.atoms[a][1].op in INT
            if not f.den:
                return all(c.denominator == 1 and all(e > 0 and isint(a) for a, e in mo) for mo, c in f.num.items())
            # an uncancelled denominator: try small integer combinations
            ats = sorted(set(a for mo in f.num for a, e in mo if isint(a)))
            if len(ats) > 2 or len(f.num) > 60:
                return False
            for sg in itertools.product((0, 1, -1), repeat=len(ats)):
                for c in (0, 1, -1, 2, -2):
                    k = mk("q", Fraction(c))
                    for a, s_ in zip(ats, sg):
                        if s_:
                            k = mk("add" if s_ > 0 else "sub", k, nm.atoms[a][1])
                    if nm.nf(mk("sub", d, k)).is_zero():
                        return True
            return False
        except (TooBig, Rebase):
            return False

    def lipschitz(self, got, want, tol):
        """got - want vanishes when two quantities the path brought within eps of each other coincide;
        mean value theorem with an interval bound on the derivative"""
        try:
            d = self.shallow(mk("sub", got, want))
            self.shnm.deadline = Deadline(3)
            d = self.shnm.to_expr(self.shnm.nf(d))
            ranges = [(c, b) for c, b in self.pc if len([n for n in topo([c]) if n.op == "var"]) <= 1]
            for c, b in self.pc[::-1]:
                if not (b and c.op in ("lt", "le") and c.args[0].op == "abs" and c.args[0].args[0].op == "sub" and const_node(c.args[1])):
                    continue
                x, y = (self.shallow(z) for z in c.args[0].args[0].args)
                if x.op == "var":
                    x, y = y, x
                if y.op != "var":
                    continue
                dv = var("delta")
                e = replace_node(d, x, mk("add", y, dv))
                if e is d:
                    continue
                e0 = self.shallow(replace_node(e, dv, ZERO))
                self.shnm.deadline = Deadline(3)
                if not self.shnm.nf(e0).is_zero():
                    continue
                eps = c.args[1]
                ia = IA(ranges + [(mk("le", dv, eps), True), (mk("le", mk("neg", eps), dv), True)])
                lo, hi = ia.ev(diff(e, dv))
                E_ = ia.ev(eps)[1]
                t = ia.ev(tol)[0]
                if max(abs(lo), abs(hi)) * E_ < t:
                    return True
        except (TooBig, Rebase, Empty, RecursionError, NotImplementedError):
            return False
        return False

    def norm_infeasible(self):
        """the simple bounds on the inputs contradict a condition once it is simplified"""
        ranges = [(c, b) for c, b in self.pc if len([n for n in topo([c]) if n.op == "var"]) <= 1]
        rest = [(c, b) for c, b in self.pc if (c, b) not in ranges and c.op in ("lt", "le")]
        if not rest:
            return False
        ia = IA(ranges)
        self.shallow(ZERO)
        for c, b in rest[::-1]:
            try:
                lo, hi = ia.ev(self.shallow(mk("sub", c.args[1], c.args[0])))
            except Empty:
                continue
            if (b and hi < 0) or (not b and lo > 0) or (c.op == "lt" and b and hi <= 0) or (c.op == "le" and not b and lo >= 0):
                return True
        return any(self.local_infeasible(c, b, ia) for c, b in rest[::-1])

    def local_infeasible(self, c, b, ia):
        """the condition alone, with the arguments of its functions forgotten, has no solution"""
        memo = {}
        rng = []

        def cut(n):
            if n in memo:
                return memo[n]
            if n.op in ("sin", "cos", "sinh", "cosh", "tanh", "exp", "tan", "atan", "asin", "ln", "asinh", "atanh", "atan2", "fmod") or n.op == "var":
                v = []
                for a in n.args:
                    if n.op == "var":
                        v.append(a)
                    elif isinstance(a, E) and not const_node(a):
                        x = mk("var", f"cut_{a.id}")
                        lo, hi = ia.ev(a)
                        if lo > -1e300:
                            rng.append((mk("le", fconst(lo), x), True))
                        if hi < 1e300:
                            rng.append((mk("le", x, fconst(hi)), True))
                        v.append(x)
                    else:
                        v.append(a)
                m = mk(n.op, *v)
                if n.op == "var":
                    lo, hi = ia.ev(n)
                    if lo > -1e300:
                        rng.append((mk("le", fconst(lo), m), True))
                    if hi < 1e300:
                        rng.append((mk("le", m, fconst(hi)), True))
            else:
                m = mk(n.op, *[cut(a) if isinstance(a, E) else a for a in n.args])
            memo[n] = m
            return m

        try:
            d = cut(self.shallow(mk("sub", c.args[1], c.args[0])))
        except (Empty, RecursionError):
            return False
        if len(topo([d])) > 60:
            return False
        # mode real: no NaN, no division by zero
        dom = []
        for n in topo([d]):
            if n.op == "sqrt":
                dom.append((mk("le", ZERO, n.args[0]), True))
            elif n.op == "div" and not const_node(n.args[1]):
                dom.append((mk("feq", ZERO, n.args[1]), False))
        t0 = time.time()
        s = Z3Solver()
        r = s.check(list(dict.fromkeys(rng)) + dom + [(mk(c.op, ZERO, d), b)], [], 1500)
        self.z3time += time.time() - t0
        self.z3n += s.queries
        return r == "unsat"

    def prove1(self, ob):
        k = ob.kind
        if k == "trivial":
            return Verdict("proved", "path")
        if self.iaof().infeasible:
            return Verdict("proved", "interval-infeasible")
        if k == "unreachable":
            if self.unsat([], 4000):
                return Verdict("proved", "unsat")
            pts = self.points()
            if pts:
                return Verdict("refuted", "reachable", self.to_native(pts[0]), mp.mpf(1))
            return Verdict("unknown", "reachability")
        args = list(ob.args)
        pts = self.points(args)
        if not pts:
            v = self.sliced(ob)
            if v is not None and v.status == "proved":
                return v
            if self._ninf is None:
                self._ninf = self.norm_infeasible() or self.unsat([], 4000)
            if self._ninf:
                return Verdict("proved", "infeasible path")
            if k == "cong" and self.cong_z3(*args[:3]):
                return Verdict("proved", "z3")
            if k == "eq" and self.unsat([(mk("feq", args[0], args[1]), False)], 4000):
                return Verdict("proved", "z3")
            if k == "le" and self.unsat([(mk("lt", args[1], args[0]), True)], 4000):
                return Verdict("proved", "z3")
            if self.weak is None:
                self.weak = PathProver(self.inputs, [(c, b) for c, b in self.pc if len([n for n in topo([c]) if n.op == "var"]) <= 1], self.seed, self.npoints, self.budget, self.fp, self.depth)
            if len(self.weak.pc) < len(self.pc):
                v = self.weak.prove(ob)
                if v.status == "proved":
                    return Verdict("proved", v.how + ", input bounds only")
            return Verdict("unknown", "no points on path")
        if k in ("eq", "near", "cong"):
            got, want = args[0], args[1]
            tol = args[-1]
            if k == "cong":
                return self.cong(got, want, args[2], tol)
            sw = self.sweeper(args)
            st, p, d = sw.prove_zero_numeric(got, want)
            if st == "nonzero":
                if k == "near":
                    return self.near(got, want, tol)
                return Verdict("refuted", "differs", self.to_native(p), d)
            if sw.prove_eq(got, want):
                return Verdict("proved", "algebra")
            if k == "near":
                return self.near(got, want, tol)
            if self.unsat([(mk("feq", got, want), False)], 5000):
                return Verdict("proved", "z3")
            return Verdict("unknown", "identity not proved (numerically zero)")
        if k == "le":
            return self.le(args[0], args[1], args[2])
        return Verdict("unknown", "kind " + k)

    SLICES = {}

    def sliced(self, ob):
        """the obligation under the conditions on its own variables only (shared between paths)"""
        vs = set(n for n in topo(list(ob.args)) if n.op in ("var", "ivar", "uf"))
        pc = [(c, b) for c, b in self.pc if all(n in vs for n in topo([c]) if n.op in ("var", "ivar", "uf"))]
        if len(pc) == len(self.pc):
            return None
        key = (ob.kind, tuple(ob.args), frozenset(pc))
        if key not in self.SLICES:
            p = PathProver(self.inputs, pc, self.seed, self.npoints, self.budget, self.fp, self.depth)
            self.SLICES[key] = p.prove(ob)
            self.z3n += p.z3n
            self.z3time += p.z3time
        v = self.SLICES[key]
        return Verdict("proved", v.how + ", conditions on its variables") if v.status == "proved" else None

    def cong(self, got, want, m, tol):
        sw = self.sweeper([got, want, m])
        sw.evaluate([got, want, m])
        for i, env in enumerate(sw.points):
            g, w, mm = sw.vals[got][i], sw.vals[want][i], sw.vals[m][i]
            x = (g - w) / mm
            if abs(x - mp.nint(x)) > mp.mpf(10) ** -25 * (1 + abs(x)):
                return Verdict("refuted", "not congruent", self.to_native(env), abs(x - mp.nint(x)) * mm)
        d = mk("div", mk("sub", got, want), m)
        nm = sw.t
        nm.deadline = Deadline(10)
        try:
            for _ in range(10):
                try:
                    f = nm.nf(d)
                    break
                except Rebase:
                    nm.memo = {}
            if not f.den and all(c.denominator == 1 and all(a in nm.intatoms and e > 0 for a, e in mo) for mo, c in f.num.items()):
                return Verdict("proved", "algebra")
            if not f.den and len(f.num) < 12 and self.cong_z3(nm.to_expr(f), ZERO, ONE):
                return Verdict("proved", "algebra, z3")
        except TooBig:
            pass
        v = self.cong_fit(sw, got, want, m)
        if v:
            return v
        if self.cong_z3(got, want, m):
            return Verdict("proved", "z3")
        return Verdict("unknown", "congruence")

    def cong_fit(self, sw, got, want, m):
        """(got - want)/m guessed as an integer combination of the integer atoms met, then proved"""
        import itertools

        nm = sw.t
        try:
            ats = [nm.atom_expr(a) for a in sorted(nm.intatoms)]
        except TooBig:
            return None
        if len(ats) > 3:
            return None
        sw.evaluate(ats)
        xs = [(sw.vals[got][i] - sw.vals[want][i]) / sw.vals[m][i] for i in range(len(sw.points))]
        for sg in itertools.product((0, -1, 1, 2, -2), repeat=len(ats)):
            rs = [x - sum(s * sw.vals[a][i] for s, a in zip(sg, ats)) for i, x in enumerate(xs)]
            k = mp.nint(rs[0])
            if all(abs(r - k) < mp.mpf(10) ** -20 for r in rs):
                j = mk("q", Fraction(int(k)))
                for s, a in zip(sg, ats):
                    if s:
                        j = mk("add", j, mk("mul", mk("q", Fraction(s)), a))
                if sw.prove_eq(got, mk("add", want, mk("mul", j, m))):
                    return Verdict("proved", "algebra")
        return None

    def cong_z3(self, got, want, m):
        """the integer is a combination of the quotients of the remainders taken on the path"""
        fm = [n for n in topo([got, want] + [c for c, _ in self.pc]) if n.op in ("fmod", "rte", "round", "floor")]
        if len(fm) > 3:
            return False
        t0 = time.time()
        tr = Tr()
        s = z3.Solver()
        s.set("timeout", 4000)
        for c, b in self.pc:
            z = tr.t(c)
            s.add(z if b else z3.Not(z))
        g, w, mm = tr.t(got), tr.t(want), tr.t(m)
        for n in fm:
            tr.t(n)
        import itertools

        ks = [z3.ToReal(z3.Int(f"k_{n.id}")) for n in fm]
        for signs in itertools.product((-1, 0, 1), repeat=len(ks)):
            for c in (-2, -1, 0, 1, 2):
                j = z3.RealVal(c)
                for sg, k in zip(signs, ks):
                    j = j + sg * k
                s.add(g - w != j * mm)
        for a in tr.ax:
            s.add(a)
        r = str(s.check())
        self.z3n += 1
        self.z3time += time.time() - t0
        return r == "unsat"

    def le(self, a, b, tol):
        sw = self.sweeper([a, b])
        sw.evaluate([a, b])
        for i, env in enumerate(sw.points):
            if sw.vals[a][i] > sw.vals[b][i] + mp.mpf(10) ** -30 * (1 + abs(sw.vals[a][i])):
                return Verdict("refuted", "greater", self.to_native(env), sw.vals[a][i] - sw.vals[b][i])
        if self.unsat([(mk("lt", b, a), True)], 5000):
            return Verdict("proved", "z3")
        try:
            f = sw.t.nf(mk("sub", b, a))
            if sw.t.sign(f) == "+":
                return Verdict("proved", "sign")
        except (TooBig, Rebase):
            pass
        r = self.bnb(self.shallow(mk("sub", b, a)), 0.0)
        if r is True:
            return Verdict("proved", "interval branch and bound")
        return Verdict("unknown", "inequality")

    def bounded_on_path(self, d, tol):
        """a condition of the path bounds |d|"""
        for c, b in self.pc:
            if b and c.op in ("lt", "le") and c.args[0].op == "abs" and is_f(c.args[1]) and is_f(tol) and fval(c.args[1]) <= fval(tol):
                x = c.args[0].args[0]
                for y in (mk("sub", d, x), mk("add", d, x)):
                    try:
                        if y is ZERO or self.shallow(y) is ZERO:
                            return True
                    except Exception:
                        pass
        return False

    def near(self, got, want, tol):
        if self.bounded_on_path(mk("sub", got, want), tol):
            return Verdict("proved", "condition of the path")
        sw = self.sweeper([got, want])
        sw.evaluate([got, want, tol])
        for i, env in enumerate(sw.points):
            d = abs(sw.vals[got][i] - sw.vals[want][i])
            if d > sw.vals[tol][i]:
                return Verdict("refuted", "beyond bound", self.to_native(env), d)
        try:
            f = sw.t.nf(mk("sub", got, want))
            lo, hi = self.iaof().ev(sw.t.to_expr(f))
            if max(abs(lo), abs(hi)) <= self.iaof().ev(tol)[0]:
                return Verdict("proved", "normal form, interval")
        except (TooBig, Rebase, Empty):
            pass
        d = mk("sub", tol, mk("abs", self.shallow(mk("sub", got, want))))
        r = self.bnb(d, 0.0)
        if r is True:
            return Verdict("proved", "interval branch and bound")
        s = self.shallow(mk("sub", got, want))
        if self.near_linear(s, tol):
            return Verdict("proved", "normal form, z3")
        if self.unsat([(mk("lt", tol, s), True)], 4000) and self.unsat([(mk("lt", s, mk("neg", tol)), True)], 4000):
            return Verdict("proved", "z3")
        return Verdict("unknown", "error bound")

    def near_linear(self, d, tol):
        """|d| <= tol with all the terms of the path in normal form (roundings become linear there)"""
        cs = []
        for c, b in self.pc:
            if c.op in ("lt", "le", "feq"):
                try:
                    c = mk(c.op, self.shallow(mk("sub", c.args[0], c.args[1])), ZERO)
                except Exception:
                    continue
            if not any(n.op == "pi" for n in topo([c])):
                cs.append((c, b))
        t0 = time.time()
        z = Z3Solver()
        r = all(z.check(cs + [(mk("lt", x, y), True)], [], 4000) == "unsat" for x, y in ((tol, d), (d, mk("neg", tol))))
        self.z3time += time.time() - t0
        self.z3n += z.queries
        return r

    def bnb(self, e, lo, secs=3.0):
        """e >= lo on the path, by subdivision of the input box"""
        t0 = time.time()
        vs = [n for n in topo([e] + [c for c, _ in self.pc]) if n.op == "var"]
        ia = self.iaof()
        box = {}
        for v in vs:
            b = ia.bound.get(v)
            if b is None or abs(b[0]) == math.inf or abs(b[1]) == math.inf:
                if v in topo([e]):
                    return False
                continue
            box[v] = b
        work = [box]
        n = 0
        while work:
            n += 1
            if n > 20000 or time.time() - t0 > secs:
                return False
            bx = work.pop()
            sub = IA(self.pc, 1, bx)
            if sub.infeasible:
                continue
            try:
                l, h = sub.ev(e)
            except Empty:
                continue
            if l >= lo:
                continue
            if h < lo:
                return False
            v = max(bx, key=lambda x: bx[x][1] - bx[x][0])
            a, b = bx[v]
            m = (a + b) / 2
            if not (a < m < b):
                return False
            x1 = dict(bx)
            x1[v] = (a, m)
            x2 = dict(bx)
            x2[v] = (m, b)
            work += [x1, x2]
        return True
