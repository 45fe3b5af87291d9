"""Interval evaluation of expressions over the reals (outward rounded doubles)."""
import math
from math import inf, nextafter
from expr import *

FULL = (-inf, inf)
PIH = nextafter(math.pi, inf)
PIL = nextafter(math.pi, -inf)


def dn(x, k=1):
    for _ in range(k):
        x = nextafter(x, -inf)
    return x


def up(x, k=1):
    for _ in range(k):
        x = nextafter(x, inf)
    return x


def out(lo, hi, k=1):
    if lo != lo or hi != hi:
        return FULL
    return (dn(lo, k) if abs(lo) != inf else lo, up(hi, k) if abs(hi) != inf else hi)


def m0(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def imul(a, b):
    ps = [m0(x, y) for x in a for y in b]
    l, h = out(min(ps), max(ps))
    if min(ps) == 0 and all(x == 0 or y == 0 or x * y > 0 for x in a for y in b):
        l = 0.0  # an exact zero, not an underflow
    if max(ps) == 0 and all(x == 0 or y == 0 or x * y < 0 for x in a for y in b):
        h = 0.0
    return (l, h)


def idiv(a, b):
    if b[0] <= 0 <= b[1]:
        if b[0] == 0 and b[1] > 0:
            if a[0] >= 0:
                return (dn(a[0] / b[1]) if b[1] != inf and a[0] != inf else 0.0, inf) if a[0] > 0 else (0.0, inf)
            if a[1] <= 0:
                return (-inf, up(a[1] / b[1]) if b[1] != inf and a[1] != -inf else 0.0) if a[1] < 0 else (-inf, 0.0)
        return FULL
    ps = []
    for x in a:
        for y in b:
            if abs(x) == inf and abs(y) == inf:
                return FULL
            ps.append(x / y)
    return out(min(ps), max(ps))


def trig(lo, hi, f, maxat, minat):
    """f periodic; maxat/minat phase of maxima/minima (multiples of pi: value/pi)"""
    if hi - lo >= 2 * math.pi or abs(lo) > 1e9 or abs(hi) > 1e9 or lo != lo or hi != hi:
        return (-1.0, 1.0)
    a, b = f(lo), f(hi)
    l, h = min(a, b) - 4e-16 - 1e-15 * max(abs(lo), abs(hi)) * 0, max(a, b) + 4e-16

    def hits(phase):
        k0 = math.floor((lo / math.pi - phase) / 2)
        for k in (k0, k0 + 1, k0 + 2):
            p = (phase + 2 * k) * math.pi
            if lo - 1e-13 <= p <= hi + 1e-13:
                return True
        return False

    # exact end points of the usual quadrants
    if hits(maxat):
        h = 1.0
    if hits(minat):
        l = -1.0
    return (max(-1.0, l), min(1.0, h))


def mono(f, lo, hi, k=4):
    def g(x, d):
        try:
            return f(x)
        except OverflowError:
            return inf if d > 0 else -inf
        except ValueError:
            return inf * d
    return out(g(lo, -1), g(hi, 1), k)


def sat(v, lo, hi):
    return (max(v[0], lo), min(v[1], hi))


def f_op(op, a, n):
    if op in ("add", "iadd"):
        return out(a[0][0] + a[1][0], a[0][1] + a[1][1])
    if op in ("sub", "isub"):
        return out(a[0][0] - a[1][1], a[0][1] - a[1][0])
    if op in ("mul", "imul"):
        if n.args[0] is n.args[1]:
            return f_op("powi", [a[0], 2], None)
        return imul(a[0], a[1])
    if op == "div":
        return idiv(a[0], a[1])
    if op == "neg":
        return (-a[0][1], -a[0][0])
    if op == "fma":
        x = imul(a[0], a[1])
        return out(x[0] + a[2][0], x[1] + a[2][1])
    if op == "powi":
        x, k = a
        if k < 0:
            return idiv((1.0, 1.0), f_op("powi", [x, -k], None))
        if k == 0:
            return (1.0, 1.0)

        def p(v):
            try:
                return v ** k
            except OverflowError:
                return inf if v > 0 or k % 2 == 0 else -inf

        u, v = p(x[0]), p(x[1])
        if k % 2:
            return out(u, v, 2)
        lo = 0.0 if x[0] <= 0 <= x[1] else min(u, v)
        r = out(lo, max(u, v), 2)
        return (max(0.0, r[0]), r[1])
    x = a[0] if a else None
    if op == "sin":
        if -PIH <= x[0] and x[1] <= PIH:
            r = trig(x[0], x[1], math.sin, 0.5, 1.5)
            if x[0] >= 0 and x[1] <= PIL:
                r = (max(0.0, r[0]), r[1])
            if x[1] <= 0 and x[0] >= -PIL:
                r = (r[0], min(0.0, r[1]))
            return r
        return trig(x[0], x[1], math.sin, 0.5, 1.5)
    if op == "cos":
        return trig(x[0], x[1], math.cos, 0.0, 1.0)
    if op == "tan":
        if x[0] > -math.pi / 2 + 1e-9 and x[1] < math.pi / 2 - 1e-9:
            return mono(math.tan, *x)
        return FULL
    if op == "sqrt":
        l = max(0.0, x[0])
        if x[1] < 0:
            return FULL
        r = out(math.sqrt(l), math.sqrt(x[1]) if x[1] != inf else inf)
        return (max(0.0, r[0]), r[1])
    if op == "hypot":
        s = f_op("powi", [a[0], 2], None)
        t = f_op("powi", [a[1], 2], None)
        return f_op("sqrt", [out(s[0] + t[0], s[1] + t[1])], None)
    if op == "cbrt":
        return mono(lambda v: math.copysign(abs(v) ** (1 / 3), v) if abs(v) != inf else v, *x, 8)
    if op == "abs":
        if x[0] >= 0:
            return x
        if x[1] <= 0:
            return (-x[1], -x[0])
        return (0.0, max(-x[0], x[1]))
    if op == "exp":
        r = mono(math.exp, *x)
        return (max(0.0, r[0]), r[1])
    if op == "expm1":
        return sat(mono(math.expm1, *x), -1.0, inf)
    if op == "ln":
        if x[1] <= 0:
            return FULL
        return out(math.log(x[0]) if x[0] > 0 else -inf, math.log(x[1]) if x[1] != inf else inf, 4)
    if op == "log1p":
        if x[1] <= -1:
            return FULL
        return out(math.log1p(x[0]) if x[0] > -1 else -inf, math.log1p(x[1]) if x[1] != inf else inf, 4)
    if op == "sinh":
        return mono(math.sinh, *x)
    if op == "cosh":
        y = f_op("abs", [x], None)
        return sat(mono(math.cosh, *y), 1.0, inf)
    if op == "tanh":
        return sat(mono(math.tanh, *x), -1.0, 1.0)
    if op == "asinh":
        return mono(math.asinh, *x)
    if op == "acosh":
        return sat(mono(lambda v: math.acosh(max(1.0, v)), *x), 0.0, inf)
    if op == "atanh":
        return out(math.atanh(x[0]) if x[0] > -1 else -inf, math.atanh(x[1]) if x[1] < 1 else inf, 4)
    if op == "asin":
        return sat(mono(lambda v: math.asin(max(-1.0, min(1.0, v))), *x), -PIH / 2, PIH / 2)
    if op == "acos":
        r = out(math.acos(max(-1.0, min(1.0, x[1]))), math.acos(max(-1.0, min(1.0, x[0]))), 4)
        return sat(r, 0.0, PIH)
    if op == "atan":
        return sat(mono(math.atan, *x), -PIH / 2, PIH / 2)
    if op == "atan2":
        y, z = a
        lo, hi = -PIH, PIH
        if z[0] > 0:
            c = [math.atan2(u, v) for u in y for v in z if not (abs(u) == inf and abs(v) == inf)]
            if len(c) == 4:
                lo, hi = out(min(c), max(c), 4)
            else:
                lo, hi = -PIH / 2, PIH / 2
        elif z[0] >= 0:
            lo, hi = -PIH / 2, PIH / 2
        if y[0] >= 0:
            lo = max(lo, 0.0)
        if y[1] < 0:
            hi = min(hi, 0.0)
        return (lo, hi)
    if op in ("floor",):
        return (math.floor(x[0]) * 1.0 if abs(x[0]) != inf else x[0], math.floor(x[1]) * 1.0 if abs(x[1]) != inf else x[1])
    if op == "ceil":
        return (math.ceil(x[0]) * 1.0 if abs(x[0]) != inf else x[0], math.ceil(x[1]) * 1.0 if abs(x[1]) != inf else x[1])
    if op in ("rte", "round"):
        return (math.floor(x[0] + 0.49999) * 1.0 if abs(x[0]) != inf else x[0], math.ceil(x[1] - 0.49999) * 1.0 if abs(x[1]) != inf else x[1])
    if op in ("trunc", "toint"):
        return (math.trunc(x[0]) * 1.0 if abs(x[0]) != inf else x[0], math.trunc(x[1]) * 1.0 if abs(x[1]) != inf else x[1])
    if op == "fmod":
        y = f_op("abs", [a[1]], None)
        lo, hi = -y[1], y[1]
        if x[0] >= 0:
            lo = 0.0
        if x[1] <= 0:
            hi = 0.0
        return (max(lo, min(x[0], 0.0)), min(hi, max(x[1], 0.0)))
    if op == "ofint":
        return x
    if op == "powf":
        if x[0] > 0:
            l = f_op("ln", [x], None)
            return f_op("exp", [imul(l, a[1])], None)
        return (0.0, inf) if x[0] >= 0 else FULL
    return FULL


class Empty(Exception):
    pass


class IA:
    """intervals of all nodes below the given ones, tightened by the path condition"""

    def __init__(self, pc, passes=3, box=None):
        self.bound = {}  # node -> (lo, hi) from pc
        self.val = {}
        self.pc = pc
        self.box = box or {}
        self.infeasible = False
        conds = []
        for c, b in pc:
            if c.op in ("lt", "le", "feq"):
                conds.append((c.op, c.args[0], c.args[1], b))
        try:
            for _ in range(passes):
                self.val = {}
                ch = False
                for op, x, y, b in conds:
                    vx, vy = self.ev(x), self.ev(y)
                    if op == "feq":
                        if b:
                            lo, hi = max(vx[0], vy[0]), min(vx[1], vy[1])
                            ch |= self.tight(x, lo, hi) | self.tight(y, lo, hi)
                        continue
                    if (op == "le" and b) or (op == "lt" and b):
                        ch |= self.tight(x, -inf, vy[1]) | self.tight(y, vx[0], inf)
                    else:  # not (x <= y): x > y ; not (x < y): x >= y
                        ch |= self.tight(x, vy[0], inf) | self.tight(y, -inf, vx[1])
                if not ch:
                    break
            self.val = {}
            for op, x, y, b in conds:
                vx, vy = self.ev(x), self.ev(y)
                if op == "feq":
                    if b and (vx[1] < vy[0] or vy[1] < vx[0]):
                        raise Empty()
                elif b and vx[0] > vy[1]:
                    raise Empty()
                elif not b and vx[1] < vy[0]:
                    raise Empty()
        except Empty:
            self.infeasible = True

    def tight(self, n, lo, hi):
        if n.op in ("f", "q", "pi"):
            return False
        o = self.bound.get(n, FULL)
        v = (max(o[0], lo), min(o[1], hi))
        if v[0] > v[1]:
            raise Empty()
        ch = v != o
        self.bound[n] = v
        if ch:
            # one step backwards through linear operations
            if n.op in ("add", "sub", "neg", "abs"):
                if n.op == "neg":
                    ch |= self.tight(n.args[0], -v[1], -v[0])
                elif n.op == "abs":
                    self.tight(n.args[0], -v[1], v[1])
                else:
                    x, y = n.args
                    vx, vy = self.val.get(x, FULL), self.val.get(y, FULL)
                    if n.op == "add":
                        if vy != FULL:
                            r = out(v[0] - vy[1], v[1] - vy[0])
                            self.tight(x, *r)
                        if vx != FULL:
                            r = out(v[0] - vx[1], v[1] - vx[0])
                            self.tight(y, *r)
                    else:
                        if vy != FULL:
                            r = out(v[0] + vy[0], v[1] + vy[1])
                            self.tight(x, *r)
                        if vx != FULL:
                            r = out(vx[0] - v[1], vx[1] - v[0])
                            self.tight(y, *r)
            elif n.op in ("mul", "div") and is_f(n.args[1]) and fval(n.args[1]) != 0 and abs(fval(n.args[1])) != inf:
                k = fval(n.args[1])
                r = idiv(v, out(k, k)) if n.op == "mul" else imul(v, out(k, k))
                self.tight(n.args[0], *r)
            elif n.op == "mul" and is_f(n.args[0]) and fval(n.args[0]) != 0 and abs(fval(n.args[0])) != inf:
                k = fval(n.args[0])
                self.tight(n.args[1], *idiv(v, out(k, k)))
        return ch

    def relational(self, n):
        """bounds that come from the same quantity occurring twice"""
        if n.op in ("add", "sub"):
            x, y = n.args
            for p, w in ((x, y), (y, x)) if n.op == "add" else ((x, y),):
                # hypot(w, .) +- w >= 0 ; sqrt(R + w^2) +- w >= 0 when R >= 0
                if p.op == "hypot" and (p.args[0] is w or p.args[1] is w):
                    return (0.0, inf)
                if p.op == "sqrt" and p.args[0].op in ("add", "fma"):
                    s = p.args[0]
                    if s.op == "fma" and s.args[0] is w and s.args[1] is w and self.val.get(s.args[2], FULL)[0] >= 0:
                        return (0.0, inf)
                    if s.op == "add":
                        for q, r in (s.args, s.args[::-1]):
                            if q.op == "mul" and q.args[0] is w and q.args[1] is w and self.val.get(r, FULL)[0] >= 0:
                                return (0.0, inf)
        elif n.op == "mul":
            fs, st = {}, [n]
            while st:
                k = st.pop()
                if k.op == "mul" and len(fs) + len(st) < 12:
                    st += list(k.args)
                else:
                    fs[k] = fs.get(k, 0) + 1
            if any(v > 1 for v in fs.values()):
                r = (1.0, 1.0)
                for k, v in fs.items():
                    r = imul(r, f_op("powi", [self.val.get(k, FULL), v], None) if v > 1 else self.val.get(k, FULL))
                return r
        elif n.op == "atan2":
            # |atan2(y, D + hypot(D, y))| <= pi/4 when D >= 0
            y, x = n.args
            if x.op in ("add", "sub"):
                for h, d in (x.args, x.args[::-1]) if x.op == "add" else (x.args,):
                    dv = self.val.get(d, FULL)
                    if h.op == "hypot" and (h.args[0] is d and h.args[1] is y or h.args[1] is d and h.args[0] is y) and (dv[0] >= 0 if x.op == "add" else dv[1] <= 0):
                        # it is half of atan2(y, D)
                        r = f_op("atan2", [self.val.get(y, FULL), dv if x.op == "add" else (-dv[1], -dv[0])], n)
                        return (max(r[0] / 2, -0.7853981633974484), min(r[1] / 2, 0.7853981633974484))
        return None

    def ev(self, e):
        if e in self.val:
            return self.val[e]
        for n in topo([e]):
            if n in self.val:
                continue
            if n.op == "f":
                x = fval(n)
                if x != x:
                    v = FULL
                else:
                    q, k = ideal(x) if abs(x) != inf else (x, 0)
                    if k == 0 and q == x:
                        v = (x, x)
                    else:
                        v = out(x, x, 2)
            elif n.op == "q":
                x = float(n.args[0])
                v = (x, x) if Fraction(x) == n.args[0] else out(x, x, 1)
            elif n.op == "pi":
                v = (PIL, PIH)
            elif n.op in ("var", "ivar"):
                v = self.box.get(n, FULL)
            elif n.op in ("lt", "le", "feq", "not", "and", "or", "ilt", "ile", "ieq", "bvar", "true", "false", "ubool", "isnan", "isfinite", "isinf", "signbit"):
                continue
            else:
                v = f_op(n.op, [self.val.get(a, FULL) if isinstance(a, E) else (a if n.op == "powi" else (a, a)) for a in n.args], n)
                if v[0] != v[0] or v[1] != v[1]:
                    v = FULL
                r = self.relational(n)
                if r is not None:
                    v = (max(v[0], r[0]), min(v[1], r[1]))
                    if v[0] > v[1]:
                        v = r
            b = self.bound.get(n)
            if b is not None:
                v = (max(v[0], b[0]), min(v[1], b[1]))
                if v[0] > v[1]:
                    raise Empty()
            self.val[n] = v
        return self.val[e]
