"""Models of functions outside geokit (std, smallvec, nalgebra ...) and of the contract vocabulary.

Everything listed here is part of the trusted base."""
import re
from expr import *
from mirload import *
import execm

_cache = {}


def find(f):
    d = f["def"]
    k = (d, f["kind"], f["name"] if d.startswith("std::ops::") or "<" in d else "")
    if k in _cache:
        return _cache[k]
    m = _find(f)
    _cache[k] = m
    return m


def _find(f):
    d = f["def"]
    if d.startswith("proofs::vk::"):
        n = d.split("::")[-1]
        if n in VK:
            return VK[n]
    if f["krate"] in ("geokit", "proofs") and f["kind"] != "Shim" and "body" in f:
        return None
    m = re.search(r"<impl (f64|f32)>::(\w+)$", d)
    if m:
        n = m.group(2)
        if n in F64:
            return F64[n]
        return None
    if d in EXACT:
        return EXACT[d]
    for pat, fn in RX:
        if pat.search(d) or pat.search(f["name"]):
            return fn
    return None


# ------------------------------------------------------------------ contract vocabulary
def sval(ex, r):
    v = r
    while isinstance(v, Ref):
        v = ex.get(v.cell, v.path)
    return v.s if isinstance(v, Str) else str(v)


def vk_real(ex, f, a, t, w):
    name = sval(ex, a[0])
    x = var(name)
    if not any(i[0] == name for i in ex.res.inputs):
        ex.res.inputs.append((name, "real", a[1], a[2]))
    ex.pc_range(x, a[1], a[2])
    return x


def vk_float(ex, f, a, t, w):
    name = sval(ex, a[0])
    x = var(name)
    ex.res.inputs.append((name, "float", None, None))
    return x


def vk_choice(ex, f, a, t, w):
    name = sval(ex, a[0])
    for i in ex.res.inputs:
        if i[0] == name:
            return i[2]
    d = ex.decide_n(a[1])
    ex.res.inputs.append((name, "choice", d, a[1]))
    return d


def vk_assume(ex, f, a, t, w):
    c = a[0]
    if c is True:
        return UNIT
    if c is False:
        raise execm.PathEnd("assume")
    if ex.solver is not None and ex.mode != "tot":
        g = ex.solver.ground(c)
        if g is False:
            raise execm.PathEnd("assume")
    ex.assume_c(c, True)
    if ex.solver is not None and ex.mode != "tot" and not ex.solver.feasible(ex.pc):
        raise execm.PathEnd("assume")
    return UNIT


def obl(kind):
    def g(ex, f, a, t, w):
        name = sval(ex, a[0])
        if kind == "ok":
            c = a[1]
            if not isinstance(c, bool):
                c = ex.branch(c)
            if c:
                ex.res.obls.append(execm.Obligation("trivial", name, (), list(ex.pc), w))
            else:
                ex.res.obls.append(execm.Obligation("unreachable", name, (), list(ex.pc), w))
            return UNIT
        ex.res.obls.append(execm.Obligation(kind, name, tuple(a[1:]), list(ex.pc), w))
        return UNIT

    return g


def vk_refuses(ex, f, a, t, w):
    name = sval(ex, a[0])
    depth, stack = ex.depth, len(ex.stack)
    try:
        ex.call_closure(a[1], [])
    except execm.PanicExc:
        ex.depth = depth
        del ex.stack[stack:]
        ex.res.obls.append(execm.Obligation("trivial", name, (), list(ex.pc), w))
        return UNIT
    ex.res.obls.append(execm.Obligation("unreachable", name, (), list(ex.pc), w))
    return UNIT


def vk_witness(ex, f, a, t, w):
    # the state of the loop last abstracted is the witness offered
    for info in reversed(ex.fixvars):
        for j, (x, e) in enumerate(info["vars"]):
            if x.op == "var" and j not in info["deps"]:
                n = info.get("now")
                return n[j] if n and isinstance(n[j], E) else x
    raise Unsupported("no witness for " + sval(ex, a[0]))


UNIT = Agg(None, 0, [])

VK = {
    "witness": vk_witness,
    "real": vk_real,
    "float": vk_float,
    "choice": vk_choice,
    "assume": vk_assume,
    "eq": obl("eq"),
    "near": obl("near"),
    "le": obl("le"),
    "cong": obl("cong"),
    "ok": obl("ok"),
    "refuses": vk_refuses,
    "cover": lambda ex, f, a, t, w: UNIT,
}


# ------------------------------------------------------------------ f64
def un(op):
    return lambda ex, f, a, t, w: mk(op, a[0])


def bi(op):
    return lambda ex, f, a, t, w: mk(op, a[0], a[1])


def f_max(ex, f, a, t, w):
    x, y = a
    if ex.mode == "tot":
        return mk("max", x, y)
    return y if ex.branch(ex.fcmp("lt", x, y)) else x


def f_min(ex, f, a, t, w):
    x, y = a
    if ex.mode == "tot":
        return mk("min", x, y)
    return y if ex.branch(ex.fcmp("lt", y, x)) else x


def f_clamp(ex, f, a, t, w):
    x, lo, hi = a
    c = ex.fcmp("le", lo, hi)
    if not ex.branch(c):
        raise execm.PanicExc("min > max, or either was NaN (f64::clamp)", w)
    if ex.branch(ex.fcmp("lt", x, lo)):
        return lo
    if ex.branch(ex.fcmp("lt", hi, x)):
        return hi
    return x


def f_signum(ex, f, a, t, w):
    x = a[0]
    if ex.mode == "tot":
        return mk("signum", x)
    return fconst(-1.0) if ex.branch(ex.fcmp("lt", x, ZERO)) else ONE


def f_copysign(ex, f, a, t, w):
    if ex.mode == "tot":
        return mk("copysign", a[0], a[1])
    neg = ex.branch(ex.fcmp("lt", a[1], ZERO))
    b = mk("abs", a[0])
    return mk("neg", b) if neg else b


def f_powi(ex, f, a, t, w):
    n = a[1]
    if isinstance(n, int):
        return mk("powi", a[0], n)
    raise Unsupported("powi symbolic")


def f_sin_cos(ex, f, a, t, w):
    return Agg(None, 0, [mk("sin", a[0]), mk("cos", a[0])])


def f_isnan(ex, f, a, t, w):
    if ex.mode != "tot":
        return False
    if is_f(a[0]):
        return fval(a[0]) != fval(a[0])
    return mk("isnan", a[0])


def f_isfinite(ex, f, a, t, w):
    if is_f(a[0]):
        return abs(fval(a[0])) < float("inf")
    if ex.mode != "tot":
        return True
    return mk("isfinite", a[0])


def f_isinf(ex, f, a, t, w):
    if is_f(a[0]):
        return abs(fval(a[0])) == float("inf")
    if ex.mode != "tot":
        return False
    return mk("isinf", a[0])


def f_signneg(ex, f, a, t, w):
    if ex.mode == "tot":
        return mk("signbit", a[0])
    return ex.fcmp("lt", a[0], ZERO)


def f_signpos(ex, f, a, t, w):
    return lnot(f_signneg(ex, f, a, t, w))


def f_abs(ex, f, a, t, w):
    return mk("abs", a[0])


def f_rem_euclid(ex, f, a, t, w):
    r = mk("fmod", a[0], a[1])
    if ex.branch(ex.fcmp("lt", r, ZERO)):
        return mk("add", r, mk("abs", a[1]))
    return r


F64 = {
    "sin": un("sin"), "cos": un("cos"), "tan": un("tan"), "asin": un("asin"), "acos": un("acos"), "atan": un("atan"),
    "sinh": un("sinh"), "cosh": un("cosh"), "tanh": un("tanh"), "asinh": un("asinh"), "acosh": un("acosh"), "atanh": un("atanh"),
    "exp": un("exp"), "ln": un("ln"), "sqrt": un("sqrt"), "cbrt": un("cbrt"), "abs": f_abs, "floor": un("floor"), "ceil": un("ceil"),
    "round": un("round"), "round_ties_even": un("rte"), "trunc": un("trunc"), "exp_m1": un("expm1"), "ln_1p": un("log1p"),
    "fract": lambda ex, f, a, t, w: mk("sub", a[0], mk("trunc", a[0])),
    "recip": lambda ex, f, a, t, w: mk("div", ONE, a[0]),
    "atan2": bi("atan2"), "hypot": bi("hypot"), "powf": bi("powf"), "powi": f_powi, "max": f_max, "min": f_min, "clamp": f_clamp,
    "signum": f_signum, "copysign": f_copysign, "sin_cos": f_sin_cos, "is_nan": f_isnan, "is_finite": f_isfinite,
    "is_infinite": f_isinf, "is_sign_negative": f_signneg, "is_sign_positive": f_signpos,
    "mul_add": lambda ex, f, a, t, w: mk("fma", a[0], a[1], a[2]),
    "to_radians": lambda ex, f, a, t, w: mk("mul", a[0], fconst(0.017453292519943295)),
    "to_degrees": lambda ex, f, a, t, w: mk("mul", a[0], fconst(57.29577951308232)),
    "rem_euclid": f_rem_euclid,
    "div_euclid": lambda *z: f_div_euclid(*z), "total_cmp": lambda *z: f_total_cmp(*z),
    "log10": lambda ex, f, a, t, w: mk("div", mk("ln", a[0]), mk("ln", fconst(10.0))),
}


def float_to_int(ex, v, s):
    lo, hi = execm.int_range(s)
    # a case split over small ranges is possible only when bounds are known; keep symbolic
    return mk("toint", v)


# ------------------------------------------------------------------ generic std
def ident(ex, f, a, t, w):
    return a[0]


def clone(ex, f, a, t, w):
    v = a[0]
    if isinstance(v, Ref):
        v = ex.get(v.cell, v.path)
    return deep_clone(ex, v)


def clone_box(ex, f, a, t, w):
    r = a[0]
    return Ref(Cell(deep_clone(ex, ex.get(r.cell, r.path)), "box"), (), None, r.vt)


def downcast(ex, f, a, t, w):
    """<dyn Any>::is / downcast_ref / downcast_mut, for a type named in the instance"""
    r = a[0]
    while isinstance(r, Ref) and r.vt is None:
        r = ex.get(r.cell, r.path)
    if not isinstance(r, Ref):
        raise Unsupported("downcast of " + repr(r))
    m = re.search(r"::(is|downcast_ref|downcast_mut)::<(.*)>$", f["name"])
    if not m:
        raise Unsupported("downcast " + f["name"])
    ty = ex.prog.types[ex.prog.vtables[r.vt.split("any!")[-1]]["ty"]]["s"]
    same = ty == m.group(2)
    if m.group(1) == "is":
        return same
    return some(ex, Ref(r.cell, r.path)) if same else none(ex)


def deep_clone(ex, v):
    if isinstance(v, Ref) and v.vt:  # Box<dyn ..> clone
        return Ref(Cell(ex.get(v.cell, v.path), "box"), (), None, v.vt)
    if isinstance(v, Seq):
        return Seq([deep_clone(ex, x) for x in v.f])
    if isinstance(v, It):
        return v.clone()
    return v


def panic(ex, f, a, t, w):
    msg = f["def"].split("::")[-1]
    try:
        for x in a:
            if isinstance(x, Ref) and isinstance(ex.get(x.cell, x.path), Str):
                msg += ": " + sval(ex, x)
    except Exception:
        pass
    raise execm.PanicExc(msg, w)


def opaque(tag):
    return lambda ex, f, a, t, w: Opaque(tag)


def box_new(ex, f, a, t, w):
    return Ref(Cell(a[0], "box"))


def vec_new(ex, f, a, t, w):
    return Seq(())


def vec_from_elem(ex, f, a, t, w):
    return Seq([deep_clone(ex, a[0]) for _ in range(int(a[1]))])


def vec_inline_size(ex, f, a, t, w):
    m = re.search(r"; (\d+)\]", f["name"])
    return int(m.group(1)) if m else 8


def vec_push(ex, f, a, t, w):
    s = ex.deref(a[0])
    ex.put(a[0].cell, a[0].path, Seq(s.f + (a[1],)))
    return UNIT


def vec_pop(ex, f, a, t, w):
    s = ex.deref(a[0])
    if not s.f:
        return none(ex)
    ex.put(a[0].cell, a[0].path, Seq(s.f[:-1]))
    return some(ex, s.f[-1])


def slice_of(ex, r):
    """follow references to the sequence; -> Ref to it (with range)"""
    v = ex.get(r.cell, r.path)
    while isinstance(v, Ref):
        r = v
        v = ex.get(r.cell, r.path)
    return r


def seq_len(ex, f, a, t, w):
    r = slice_of(ex, a[0])
    return ex.seq_len(ex.get(r.cell, r.path), r.rng)


def seq_is_empty(ex, f, a, t, w):
    return seq_len(ex, f, a, t, w) == 0


def deref_seq(ex, f, a, t, w):
    return slice_of(ex, a[0])


def some(ex, v):
    return Agg(None, 1, [v])


def none(ex):
    return Agg(None, 0, [])


def index(ex, f, a, t, w):
    r = slice_of(ex, a[0])
    n = ex.seq_len(ex.get(r.cell, r.path), r.rng)
    b = r.rng[0] if r.rng else 0
    i = a[1]
    if isinstance(i, int):
        if not (0 <= i < n):
            raise execm.PanicExc(f"index out of bounds: the len is {n} but the index is {i}", w)
        return Ref(r.cell, r.path + (b + i,))
    lo, hi = range_bounds(ex, i, n)
    if lo > hi or hi > n:
        raise execm.PanicExc(f"slice range {lo}..{hi} out of bounds of length {n}", w)
    return Ref(r.cell, r.path, (b + lo, b + hi))


def range_bounds(ex, i, n):
    if isinstance(i, Agg):
        nm = ex.prog.types[i.ty]["name"].split("::")[-1] if i.ty is not None else ""
        v = i.f
        for x in v:
            if isinstance(x, E):
                raise Unsupported("symbolic slice range")
        if nm == "Range":
            return v[0], v[1]
        if nm == "RangeFrom":
            return v[0], n
        if nm == "RangeTo":
            return 0, v[0]
        if nm == "RangeInclusive":
            return v[0], v[1] + 1
        if nm == "RangeToInclusive":
            return 0, v[0] + 1
        if nm == "RangeFull":
            return 0, n
    raise Unsupported("index by " + repr(i))


def get_opt(ex, f, a, t, w):
    r = slice_of(ex, a[0])
    n = ex.seq_len(ex.get(r.cell, r.path), r.rng)
    b = r.rng[0] if r.rng else 0
    i = a[1]
    if isinstance(i, int):
        if not (0 <= i < n):
            return none(ex)
        return some(ex, Ref(r.cell, r.path + (b + i,)))
    lo, hi = range_bounds(ex, i, n)
    if lo > hi or hi > n:
        return none(ex)
    return some(ex, Ref(r.cell, r.path, (b + lo, b + hi)))


def first_last(which):
    def g(ex, f, a, t, w):
        el = ex.elems(a[0])
        return some(ex, el[which]) if el else none(ex)

    return g


def to_vec(ex, f, a, t, w):
    v = a[0]
    if isinstance(v, Ref):
        return Seq([deep_clone(ex, ex.deref(e)) for e in ex.elems(v)])
    if isinstance(v, (Agg, Seq)):
        return Seq(v.f)
    if isinstance(v, It):
        return Seq(v.rest(ex))
    raise Unsupported("to_vec")


def extend(ex, f, a, t, w):
    s = ex.deref(a[0])
    it = as_iter(ex, a[1])
    l = list(s.f)
    while True:
        x = it.next(ex)
        if x is None:
            break
        l.append(ex.deref(x) if isinstance(x, Ref) and not x.vt and is_scalar(ex.deref(x)) else x)
    ex.put(a[0].cell, a[0].path, Seq(l))
    return UNIT


def is_scalar(v):
    return isinstance(v, (E, int, bool))


def copy_from_slice(ex, f, a, t, w):
    d, s = ex.elems(a[0]), ex.elems(a[1])
    if len(d) != len(s):
        raise execm.PanicExc("copy_from_slice: source and destination lengths differ", w)
    vals = [ex.deref(x) for x in s]
    for r, v in zip(d, vals):
        ex.put(r.cell, r.path, v)
    return UNIT


def fill(ex, f, a, t, w):
    for r in ex.elems(a[0]):
        ex.put(r.cell, r.path, a[1])
    return UNIT


def swap(ex, f, a, t, w):
    if len(a) == 3:
        e = ex.elems(a[0])
        x, y = e[a[1]], e[a[2]]
    else:
        x, y = a
    vx, vy = ex.deref(x), ex.deref(y)
    ex.put(x.cell, x.path, vy)
    ex.put(y.cell, y.path, vx)
    return UNIT


# ------------------------------------------------------------------ iterators
class It:
    def next(self, ex):
        raise Unsupported("next")

    def next_back(self, ex):
        raise Unsupported("next_back")

    def rest(self, ex):
        l = []
        while True:
            x = self.next(ex)
            if x is None:
                return l
            l.append(x)
            if len(l) > 5000:
                raise Unsupported("long iterator")

    def length(self, ex):
        raise Unsupported("iterator length")

    def clone(self):
        import copy

        c = copy.copy(self)
        for k, v in c.__dict__.items():
            if isinstance(v, It):
                c.__dict__[k] = v.clone()
            elif isinstance(v, list):
                c.__dict__[k] = list(v)
        return c


class ListIt(It):
    def __init__(self, items):
        self.items = list(items)
        self.i = 0
        self.j = len(self.items)

    def next(self, ex):
        if self.i >= self.j:
            return None
        self.i += 1
        return self.items[self.i - 1]

    def next_back(self, ex):
        if self.i >= self.j:
            return None
        self.j -= 1
        return self.items[self.j]

    def length(self, ex):
        return self.j - self.i


class RangeIt(It):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def next(self, ex):
        c = ex.binop("Lt", self.lo, self.hi)
        if not isinstance(c, bool):
            c = ex.branch(c)
        if not c:
            return None
        v = self.lo
        self.lo = ex.intop("Add", v, 1)
        return v

    def next_back(self, ex):
        if not self.lo < self.hi:
            return None
        self.hi -= 1
        return self.hi

    def length(self, ex):
        return max(0, self.hi - self.lo)


class MapIt(It):
    def __init__(self, it, fn):
        self.it, self.fn = it, fn

    def next(self, ex):
        x = self.it.next(ex)
        return None if x is None else ex.call_closure(self.fn, [x])

    def next_back(self, ex):
        x = self.it.next_back(ex)
        return None if x is None else ex.call_closure(self.fn, [x])

    def length(self, ex):
        return self.it.length(ex)


class FilterIt(It):
    def __init__(self, it, fn):
        self.it, self.fn = it, fn

    def next(self, ex):
        while True:
            x = self.it.next(ex)
            if x is None:
                return None
            b = ex.call_closure(self.fn, [Ref(Cell(x, "filter"))])
            if ex.branch(b):
                return x

    def next_back(self, ex):
        while True:
            x = self.it.next_back(ex)
            if x is None:
                return None
            if ex.branch(ex.call_closure(self.fn, [Ref(Cell(x, "filter"))])):
                return x


class CopiedIt(It):
    def __init__(self, it):
        self.it = it

    def get(self, ex, x):
        return None if x is None else (ex.deref(x) if isinstance(x, Ref) and not x.vt else x)

    def next(self, ex):
        return self.get(ex, self.it.next(ex))

    def next_back(self, ex):
        return self.get(ex, self.it.next_back(ex))

    def length(self, ex):
        return self.it.length(ex)


def opt_val(ex, v):
    """the payload of an Option value, or None"""
    k = v.variant
    if isinstance(k, E):
        raise Unsupported("symbolic option")
    return v.f[0] if k == 1 else None


class FilterMapIt(It):
    stop = False

    def __init__(self, it, fn):
        self.it, self.fn = it, fn

    def next(self, ex):
        while True:
            x = self.it.next(ex)
            if x is None:
                return None
            y = opt_val(ex, ex.call_closure(self.fn, [x]))
            if y is not None or self.stop:
                return y

    def next_back(self, ex):
        if self.stop:
            raise Unsupported("next_back")
        while True:
            x = self.it.next_back(ex)
            if x is None:
                return None
            y = opt_val(ex, ex.call_closure(self.fn, [x]))
            if y is not None:
                return y


class MapWhileIt(FilterMapIt):
    stop = True


class FlatIt(It):
    """flatten (fn None) and flat_map"""

    def __init__(self, it, fn=None):
        self.it, self.fn, self.cur, self.back = it, fn, None, None

    def sub(self, ex, x):
        return as_iter(ex, x if self.fn is None else ex.call_closure(self.fn, [x]))

    def next(self, ex):
        while True:
            if self.cur is not None:
                y = self.cur.next(ex)
                if y is not None:
                    return y
            x = self.it.next(ex)
            if x is None:
                return self.back.next(ex) if self.back is not None else None
            self.cur = self.sub(ex, x)

    def next_back(self, ex):
        while True:
            if self.back is not None:
                y = self.back.next_back(ex)
                if y is not None:
                    return y
            x = self.it.next_back(ex)
            if x is None:
                return self.cur.next_back(ex) if self.cur is not None else None
            self.back = self.sub(ex, x)


class ScanIt(It):
    def __init__(self, it, st, fn):
        self.it, self.st, self.fn = it, Cell(st, "scan"), fn

    def next(self, ex):
        x = self.it.next(ex)
        return None if x is None else opt_val(ex, ex.call_closure(self.fn, [Ref(self.st), x]))


class InspectIt(It):
    def __init__(self, it, fn):
        self.it, self.fn = it, fn

    def see(self, ex, x):
        if x is not None:
            ex.call_closure(self.fn, [Ref(Cell(x, "inspect"))])
        return x

    def next(self, ex):
        return self.see(ex, self.it.next(ex))

    def next_back(self, ex):
        return self.see(ex, self.it.next_back(ex))

    def length(self, ex):
        return self.it.length(ex)


class SkipWhileIt(It):
    def __init__(self, it, fn):
        self.it, self.fn, self.on = it, fn, False

    def next(self, ex):
        while True:
            x = self.it.next(ex)
            if x is None or self.on:
                return x
            if not ex.branch(ex.call_closure(self.fn, [Ref(Cell(x, "sw"))])):
                self.on = True
                return x


class SuccIt(It):
    def __init__(self, first, fn):
        self.cur, self.fn = first, fn

    def next(self, ex):
        x = self.cur
        if x is not None:
            self.cur = opt_val(ex, ex.call_closure(self.fn, [Ref(Cell(x, "succ"))]))
        return x


class RepeatIt(It):
    def __init__(self, v):
        self.v = v

    def next(self, ex):
        return deep_clone(ex, self.v)

    next_back = next


class FromFnIt(It):
    def __init__(self, fn):
        self.fn = fn

    def next(self, ex):
        return opt_val(ex, ex.call_closure(self.fn, []))


class CycleIt(It):
    def __init__(self, it):
        self.orig, self.it = it.clone(), it

    def next(self, ex):
        x = self.it.next(ex)
        if x is None:
            self.it = self.orig.clone()
            x = self.it.next(ex)
        return x


class CellIt(It):
    """an iterator behind a mutable reference (by_ref, &mut I)"""

    def __init__(self, ref):
        self.ref = ref

    def in_(self, ex):
        return ex.get(self.ref.cell, self.ref.path)

    def next(self, ex):
        return opt_val(ex, it_next(ex, None, [self.ref], None, ""))

    def next_back(self, ex):
        return opt_val(ex, it_next_back(ex, None, [self.ref], None, ""))

    def length(self, ex):
        v = self.in_(ex)
        return v.length(ex) if isinstance(v, It) else as_iter(ex, v).length(ex)


class ZipIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def next(self, ex):
        x = self.a.next(ex)
        if x is None:
            return None
        y = self.b.next(ex)
        if y is None:
            return None
        return Agg(None, 0, [x, y])

    def length(self, ex):
        return min(self.a.length(ex), self.b.length(ex))

    def next_back(self, ex):
        n, m = self.a.length(ex), self.b.length(ex)
        while n > m:
            self.a.next_back(ex)
            n -= 1
        while m > n:
            self.b.next_back(ex)
            m -= 1
        x = self.a.next_back(ex)
        if x is None:
            return None
        return Agg(None, 0, [x, self.b.next_back(ex)])


class EnumIt(It):
    def __init__(self, it):
        self.it, self.n = it, 0

    def next(self, ex):
        x = self.it.next(ex)
        if x is None:
            return None
        self.n += 1
        return Agg(None, 0, [self.n - 1, x])

    def next_back(self, ex):
        k = self.it.length(ex)
        x = self.it.next_back(ex)
        if x is None:
            return None
        return Agg(None, 0, [self.n + k - 1, x])

    def length(self, ex):
        return self.it.length(ex)


class RevIt(It):
    def __init__(self, it):
        self.it = it

    def next(self, ex):
        return self.it.next_back(ex)

    def next_back(self, ex):
        return self.it.next(ex)

    def length(self, ex):
        return self.it.length(ex)


class SkipIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def next(self, ex):
        while self.n > 0:
            self.n -= 1
            if self.it.next(ex) is None:
                return None
        return self.it.next(ex)

    def length(self, ex):
        return max(0, self.it.length(ex) - self.n)

    def next_back(self, ex):
        if self.length(ex) <= 0:
            return None
        return self.it.next_back(ex)


class TakeIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def next(self, ex):
        if self.n <= 0:
            return None
        self.n -= 1
        return self.it.next(ex)

    def length(self, ex):
        return min(self.n, self.it.length(ex))

    def next_back(self, ex):
        n = self.it.length(ex)
        while n > self.n:
            self.it.next_back(ex)
            n -= 1
        if n <= 0:
            return None
        self.n -= 1
        return self.it.next_back(ex)


class ChainIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def next(self, ex):
        x = self.a.next(ex)
        return x if x is not None else self.b.next(ex)

    def next_back(self, ex):
        x = self.b.next_back(ex)
        return x if x is not None else self.a.next_back(ex)

    def length(self, ex):
        return self.a.length(ex) + self.b.length(ex)


class StepIt(It):
    def __init__(self, it, n):
        self.it, self.n, self.first = it, n, True

    def next(self, ex):
        if self.first:
            self.first = False
        else:
            for _ in range(self.n - 1):
                if self.it.next(ex) is None:
                    return None
        return self.it.next(ex)


class PeekIt(It):
    def __init__(self, it):
        self.it, self.buf = it, []

    def next(self, ex):
        if self.buf:
            return self.buf.pop()
        return self.it.next(ex)

    def peek(self, ex):
        if not self.buf:
            x = self.it.next(ex)
            if x is None:
                return None
            self.buf.append(x)
        return self.buf[0]


class TakeWhileIt(It):
    def __init__(self, it, fn):
        self.it, self.fn, self.done = it, fn, False

    def next(self, ex):
        if self.done:
            return None
        x = self.it.next(ex)
        if x is None:
            return None
        if ex.branch(ex.call_closure(self.fn, [Ref(Cell(x, "tw"))])):
            return x
        self.done = True
        return None


class UserIt(It):
    """an iterator implemented in MIR (a struct with its own `next`)"""

    def __init__(self, ref, inst):
        self.ref, self.inst = ref, inst

    def next(self, ex):
        return opt_val(ex, ex.call(self.inst, [self.ref], [None]))


def user_next(ex, ty):
    """the instance of Iterator::next of a type of the code itself"""
    c = ex.prog.__dict__.setdefault("_user_next", {})
    if ty not in c:
        c[ty] = None
        for k, f in ex.prog.funcs.items():
            if "body" in f and f["krate"] in ("geokit", "proofs") and f["def"].endswith("Iterator>::next") and f["body"]["argc"] == 1:
                a = ex.prog.types[f["body"]["locals"][1]]
                if a["k"] == "ref" and (a["e"] == ty or ex.prog.types[a["e"]]["s"] == ex.prog.types[ty]["s"]):
                    c[ty] = k
    return c[ty]


def as_iter(ex, v):
    if isinstance(v, It):
        return v
    if isinstance(v, Ref):
        x = ex.get(v.cell, v.path)
        if isinstance(x, It):
            return x
        if isinstance(x, Agg) and x.ty is not None and ex.prog.types[x.ty].get("name", "").endswith("ops::Range"):
            return CellIt(v)
        if isinstance(x, Agg) and x.ty is not None and ex.prog.types[x.ty].get("name", "").endswith("ops::RangeInclusive"):
            return CellIt(v)
        if isinstance(x, Agg) and (x.ty is None or ex.prog.types[x.ty].get("name", "").endswith("option::Option")) and x.ty is not None:
            return ListIt([Ref(v.cell, v.path + (0,))] if x.variant == 1 else [])
        return ListIt(ex.elems(v))
    if isinstance(v, Seq):
        return ListIt(v.f)
    if isinstance(v, Agg):
        if v.ty is not None:
            nm = ex.prog.types[v.ty].get("name", "")
            if nm.endswith("ops::Range"):
                return RangeIt(v.f[0], v.f[1])
            if nm.endswith("ops::RangeInclusive"):
                return RangeIt(v.f[0], v.f[0] if v.f[2] is True else ex.intop("Add", v.f[1], 1))
            if nm.endswith("ops::RangeFrom"):
                return RangeIt(v.f[0], 1 << 62)
            if nm.endswith("option::Option"):
                return ListIt(v.f if v.variant == 1 else [])
            if ex.prog.types[v.ty]["k"] in ("array",):
                return ListIt(v.f)
            k = user_next(ex, v.ty)
            if k is not None:
                return UserIt(Ref(Cell(v, "iter")), k)
            raise Unsupported("iterator " + nm)
        return ListIt(v.f)
    raise Unsupported("iter of " + repr(v))


def into_iter(ex, f, a, t, w):
    v = a[0]
    if isinstance(v, Agg) and v.ty is not None and ex.prog.types[v.ty].get("name", "").endswith("ops::Range"):
        return v  # stays a struct; next() handles it
    if isinstance(v, Agg) and v.ty is not None and user_next(ex, v.ty) is not None:
        return v
    return as_iter(ex, v)


def opt(x, ex):
    return none(ex) if x is None else some(ex, x)


def it_next(ex, f, a, t, w):
    r = a[0]
    v = ex.get(r.cell, r.path)
    while isinstance(v, Ref):
        r = v
        v = ex.get(r.cell, r.path)
    if isinstance(v, It):
        return opt(v.next(ex), ex)
    if isinstance(v, Agg):
        nm = ex.prog.types[v.ty].get("name", "") if v.ty is not None else ""
        if nm.endswith("ops::Range"):
            lo, hi = v.f
            c = ex.binop("Lt", lo, hi)
            if not isinstance(c, bool):
                c = ex.loop_branch(ex.stack[-1], c) if False else ex.branch(c)
            if not c:
                return none(ex)
            ex.put(r.cell, r.path, Agg(v.ty, v.variant, [ex.intop("Add", lo, 1), hi]))
            return some(ex, lo)
        if nm.endswith("ops::RangeInclusive"):
            lo, hi, done = v.f
            if done or lo > hi:
                return none(ex)
            if lo == hi:
                ex.put(r.cell, r.path, Agg(v.ty, v.variant, [lo, hi, True]))
            else:
                ex.put(r.cell, r.path, Agg(v.ty, v.variant, [lo + 1, hi, False]))
            return some(ex, lo)
    raise Unsupported("next of " + repr(v))


def it_next_back(ex, f, a, t, w):
    r = slice_of(ex, a[0])
    v = ex.get(r.cell, r.path)
    if isinstance(v, It):
        return opt(v.next_back(ex), ex)
    if isinstance(v, Agg) and v.ty is not None and ex.prog.types[v.ty].get("name", "").endswith("ops::Range"):
        lo, hi = v.f
        if not lo < hi:
            return none(ex)
        ex.put(r.cell, r.path, Agg(v.ty, v.variant, [lo, hi - 1]))
        return some(ex, hi - 1)
    if isinstance(v, Agg) and v.ty is not None and ex.prog.types[v.ty].get("name", "").endswith("ops::RangeInclusive"):
        lo, hi, done = v.f
        if done or lo > hi:
            return none(ex)
        ex.put(r.cell, r.path, Agg(v.ty, v.variant, [lo, hi, True] if lo == hi else [lo, hi - 1, False]))
        return some(ex, hi)
    raise Unsupported("next_back")


def windows(ex, f, a, t, w):
    r = slice_of(ex, a[0])
    n = ex.seq_len(ex.get(r.cell, r.path), r.rng)
    b = r.rng[0] if r.rng else 0
    k = a[1]
    return ListIt([Ref(r.cell, r.path, (b + i, b + i + k)) for i in range(0, n - k + 1)])


def chunks(exact):
    def g(ex, f, a, t, w):
        r = slice_of(ex, a[0])
        n = ex.seq_len(ex.get(r.cell, r.path), r.rng)
        b = r.rng[0] if r.rng else 0
        k = a[1]
        if k == 0:
            raise execm.PanicExc("chunk size must be non-zero", w)
        out = [Ref(r.cell, r.path, (b + i, b + min(i + k, n))) for i in range(0, n, k) if (not exact or i + k <= n)]
        return ListIt(out)

    return g


def it_fold(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    acc = a[1]
    while True:
        x = it.next(ex)
        if x is None:
            return acc
        acc = ex.call_closure(a[2], [acc, x])


def it_for_each(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    while True:
        x = it.next(ex)
        if x is None:
            return UNIT
        ex.call_closure(a[1], [x])


def it_any(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    while True:
        x = it.next(ex)
        if x is None:
            return False
        if ex.branch(ex.call_closure(a[1], [x])):
            return True


def it_all(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    while True:
        x = it.next(ex)
        if x is None:
            return True
        if not ex.branch(ex.call_closure(a[1], [x])):
            return False


def it_position(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    i = 0
    while True:
        x = it.next(ex)
        if x is None:
            return none(ex)
        if ex.branch(ex.call_closure(a[1], [x])):
            return some(ex, i)
        i += 1


def it_find(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    while True:
        x = it.next(ex)
        if x is None:
            return none(ex)
        if ex.branch(ex.call_closure(a[1], [Ref(Cell(x, "find"))])):
            return some(ex, x)


def it_collect(ex, f, a, t, w):
    m = re.search(r"::collect::<(.*)>$", f["name"])
    into = m.group(1) if m else ""
    if re.match(r"std::(option::Option|result::Result)<", into):
        good = 1 if into.startswith("std::option") else 0
        it, out = as_iter(ex, a[0]), []
        while True:
            x = it.next(ex)
            if x is None:
                return Agg(None, good, [Seq(out)])
            if isinstance(x.variant, E):
                raise Unsupported("symbolic option")
            if x.variant != good:
                return x
            out.append(x.f[0])
    if into and not re.match(r"(std::vec::Vec|smallvec::SmallVec|std::boxed::Box<\[)", into):
        raise Unsupported("collect into " + into)
    r = Seq(as_iter(ex, a[0]).rest(ex))
    return Ref(Cell(r, "box")) if into.startswith("std::boxed") else r


def it_filter_map_find(ex, f, a, t, w):
    return opt(FilterMapIt(as_iter(ex, a[0]), a[1]).next(ex), ex)


def it_try_fold(ex, f, a, t, w):
    it, acc = as_iter(ex, a[0]), a[1]
    m = re.search(r"(std::option::Option|std::result::Result)<[^{}]*>>$", f["name"])
    if not m:
        raise Unsupported("try_fold")
    good = 1 if "option" in m.group(1) else 0
    while True:
        x = it.next(ex)
        if x is None:
            return Agg(None, good, [acc])
        r = ex.call_closure(a[2], [acc, x])
        if isinstance(r.variant, E):
            raise Unsupported("symbolic option")
        if r.variant != good:
            return r
        acc = r.f[0]


def it_reduce(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    acc = it.next(ex)
    if acc is None:
        return none(ex)
    while True:
        x = it.next(ex)
        if x is None:
            return some(ex, acc)
        acc = ex.call_closure(a[1], [acc, x])


def cmp_variant(v):
    if isinstance(v.variant, E):
        raise Unsupported("symbolic ordering")
    return v.variant - 1


def it_min_max(mx, by):
    def g(ex, f, a, t, w):
        it = as_iter(ex, a[0])
        best = it.next(ex)
        if best is None:
            return none(ex)
        key = ex.call_closure(a[1], [Ref(Cell(best, "k"))]) if by == "key" else dv(ex, best)
        while True:
            x = it.next(ex)
            if x is None:
                return some(ex, best)
            if by == "by":
                c = cmp_variant(ex.call_closure(a[1], [Ref(Cell(best, "k")), Ref(Cell(x, "k"))]))
                k = None
            else:
                k = ex.call_closure(a[1], [Ref(Cell(x, "k"))]) if by == "key" else dv(ex, x)
                if not (isinstance(k, int) and isinstance(key, int)):
                    raise Unsupported("key comparison")
                c = (key > k) - (key < k)
            if (c <= 0) if mx else (c > 0):
                best, key = x, k

    return g


def it_unzip(ex, f, a, t, w):
    l = as_iter(ex, a[0]).rest(ex)
    return Agg(None, 0, [Seq([x.f[0] for x in l]), Seq([x.f[1] for x in l])])


def it_partition(ex, f, a, t, w):
    l, o = as_iter(ex, a[0]).rest(ex), ([], [])
    m = re.search(r"::partition::<std::vec::Vec<(&?)", f["name"])
    byref = bool(m) and not m.group(1)
    for x in l:
        x0 = x
        if byref and isinstance(x, Ref) and not x.vt and is_scalar(ex.deref(x)):
            x = ex.deref(x)
        o[0 if ex.branch(ex.call_closure(a[1], [Ref(Cell(x0, "p"))])) else 1].append(x)
    return Agg(None, 0, [Seq(o[0]), Seq(o[1])])


def it_eq(ex, f, a, t, w):
    x, y = as_iter(ex, a[0]).rest(ex), as_iter(ex, a[1]).rest(ex)
    if len(x) != len(y):
        r = False
    else:
        r = True
        for p, q in zip(x, y):
            r = land(r, struct_eq(ex, dv(ex, p), dv(ex, q)))
    return lnot(r) if f["def"].endswith("::ne") else r


def it_rfind(ex, f, a, t, w):
    return it_find(ex, f, [RevIt(as_iter(ex, a[0])), a[1]], t, w)


def it_rposition(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    while True:
        i = it.length(ex) - 1
        x = it.next_back(ex)
        if x is None:
            return none(ex)
        if ex.branch(ex.call_closure(a[1], [x])):
            return some(ex, i)


def it_nth_back(ex, f, a, t, w):
    return it_nth(ex, f, [RevIt(as_iter(ex, a[0])), a[1]], t, w)


def it_by_ref(ex, f, a, t, w):
    return a[0]


def it_peek(ex, f, a, t, w):
    r = a[0]
    v = ex.get(r.cell, r.path)
    x = v.peek(ex)
    return none(ex) if x is None else some(ex, Ref(Cell(x, "peek")))


def it_next_if(ex, f, a, t, w):
    v = ex.get(a[0].cell, a[0].path)
    x = v.peek(ex)
    if x is None or not ex.branch(ex.call_closure(a[1], [Ref(Cell(x, "peek"))])):
        return none(ex)
    return opt(v.next(ex), ex)


def sum_opt(ex, f, a, t, w):
    good = 1 if "option" in f["def"] else 0
    it, acc = as_iter(ex, a[0]), fconst(1.0 if f["def"].endswith("product") else 0.0)
    if not re.search(r"<f64[,>]", f["name"]):
        raise Unsupported("sum of options")
    while True:
        x = it.next(ex)
        if x is None:
            return Agg(None, good, [acc])
        if isinstance(x.variant, E):
            raise Unsupported("symbolic option")
        if x.variant != good:
            return x
        acc = mk("mul" if f["def"].endswith("product") else "add", acc, dv(ex, x.f[0]))


# slices and vectors, continued
def split_end(which):
    def g(ex, f, a, t, w):
        r = slice_of(ex, a[0])
        n = ex.seq_len(ex.get(r.cell, r.path), r.rng)
        if n == 0:
            return none(ex)
        b = r.rng[0] if r.rng else 0
        if which == 0:
            p = [Ref(r.cell, r.path + (b,)), Ref(r.cell, r.path, (b + 1, b + n))]
        else:
            p = [Ref(r.cell, r.path + (b + n - 1,)), Ref(r.cell, r.path, (b, b + n - 1))]
        return some(ex, Agg(None, 0, p))

    return g


def elem_vals(ex, r):
    return [ex.deref(x) for x in ex.elems(r)]


def set_elems(ex, r, vals):
    for x, v in zip(ex.elems(r), vals):
        ex.put(x.cell, x.path, v)
    return UNIT


def vec_edit(fn):
    """an operation on the whole vector: fn(list, args) -> result"""

    def g(ex, f, a, t, w):
        r = slice_of(ex, a[0])
        l = list(ex.get(r.cell, r.path).f)
        x = fn(ex, l, a[1:], w)
        ex.put(r.cell, r.path, Seq(l))
        return UNIT if x is None else x

    return g


def v_insert(ex, l, a, w):
    if a[0] > len(l):
        raise execm.PanicExc("insertion index (is %s) should be <= len (is %d)" % (a[0], len(l)), w)
    l.insert(a[0], a[1])


def v_remove(ex, l, a, w):
    if a[0] >= len(l):
        raise execm.PanicExc("removal index (is %s) should be < len (is %d)" % (a[0], len(l)), w)
    return l.pop(a[0])


def v_swap_remove(ex, l, a, w):
    if a[0] >= len(l):
        raise execm.PanicExc("swap_remove index out of bounds", w)
    x = l[a[0]]
    l[a[0]] = l[-1]
    l.pop()
    return x


def v_truncate(ex, l, a, w):
    del l[a[0]:]


def v_append(ex, l, a, w):
    r = slice_of(ex, a[0])
    l.extend(ex.get(r.cell, r.path).f)
    ex.put(r.cell, r.path, Seq(()))


def v_drain(ex, l, a, w):
    lo, hi = range_bounds(ex, a[0], len(l))
    if lo > hi or hi > len(l):
        raise execm.PanicExc("drain range out of bounds", w)
    x = l[lo:hi]
    del l[lo:hi]
    return ListIt(x)


def v_resize(ex, l, a, w):
    while len(l) < a[0]:
        l.append(deep_clone(ex, a[1]))
    del l[a[0]:]


def v_dedup_retain(ex, l, a, w):
    l[:] = [x for x in l if ex.branch(ex.call_closure(a[0], [Ref(Cell(x, "retain"))]))]


def s_concat(ex, f, a, t, w):
    return Seq([deep_clone(ex, ex.deref(y)) for x in ex.elems(a[0]) for y in ex.elems(dv_slice(ex, x))])


def dv_slice(ex, x):
    v = ex.get(x.cell, x.path)
    return v if isinstance(v, Ref) else x


def s_rotate(d):
    def g(ex, f, a, t, w):
        v = elem_vals(ex, a[0])
        k = a[1]
        if k > len(v):
            raise execm.PanicExc("rotate: mid > len", w)
        k = k if d > 0 else len(v) - k
        return set_elems(ex, a[0], v[k:] + v[:k])

    return g


def s_sort_by(ex, f, a, t, w):
    v, out = elem_vals(ex, a[0]), []
    for x in v:  # insertion sort, stable
        i = len(out)
        while i > 0 and cmp_variant(ex.call_closure(a[1], [Ref(Cell(x, "s")), Ref(Cell(out[i - 1], "s"))])) < 0:
            i -= 1
        out.insert(i, x)
    return set_elems(ex, a[0], out)


def s_contains(ex, f, a, t, w):
    x = dv(ex, a[1])
    for y in elem_vals(ex, a[0]):
        c = struct_eq(ex, y, x)
        if c if isinstance(c, bool) else ex.branch(c):
            return True
    return False


def s_partition_point(ex, f, a, t, w):
    el = ex.elems(a[0])
    for i, x in enumerate(el):  # the precondition (partitioned) makes this the same index
        if not ex.branch(ex.call_closure(a[1], [x])):
            return i
    return len(el)


def s_copy_within(ex, f, a, t, w):
    v = elem_vals(ex, a[0])
    lo, hi = range_bounds(ex, a[1], len(v))
    if lo > hi or hi > len(v) or a[2] + hi - lo > len(v):
        raise execm.PanicExc("copy_within out of bounds", w)
    s = v[lo:hi]
    v[a[2]:a[2] + len(s)] = s
    return set_elems(ex, a[0], v)


def first_chunk(end):
    def g(ex, f, a, t, w):
        n = int(re.search(r"::<(\d+)>$", f["name"]).group(1))
        r = slice_of(ex, a[0])
        m = ex.seq_len(ex.get(r.cell, r.path), r.rng)
        if m < n:
            return none(ex)
        b = (r.rng[0] if r.rng else 0) + (m - n if end else 0)
        v = Agg(None, 0, [ex.deref(Ref(r.cell, r.path + (b + i,))) for i in range(n)])
        return some(ex, Ref(Cell(v, "chunk")))

    return g


def array_try_from(ex, f, a, t, w):
    m = re.search(r"\[[^\[\]]*; (\d+)\]", f["name"])
    if not m:
        raise Unsupported("try_from")
    n = int(m.group(1))
    if isinstance(a[0], Seq):
        return Agg(None, 0, [Agg(None, 0, list(a[0].f))]) if len(a[0].f) == n else Agg(None, 1, [a[0]])
    v = elem_vals(ex, a[0])
    if len(v) != n:
        return Agg(None, 1, [Opaque("TryFromSliceError")])
    return Agg(None, 0, [Agg(None, 0, [deep_clone(ex, x) for x in v])])


def it_try_for_each(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    m = re.search(r"(std::option::Option|std::result::Result)<[^{}]*>>$", f["name"])
    if not m:
        raise Unsupported("try_for_each")
    good = 1 if "option" in m.group(1) else 0
    while True:
        x = it.next(ex)
        if x is None:
            return Agg(None, good, [UNIT])
        r = ex.call_closure(a[1], [x])
        if isinstance(r.variant, E):
            raise Unsupported("symbolic option")
        if r.variant != good:
            return r


def iter_as_slice(ex, f, a, t, w):
    v = ex.deref(a[0])
    if not isinstance(v, ListIt):
        raise Unsupported("as_slice")
    l = v.items[v.i:v.j]
    if not l or not all(isinstance(x, Ref) and x.path and x.cell is l[0].cell for x in l):
        raise Unsupported("as_slice")
    return Ref(l[0].cell, l[0].path[:-1], (l[0].path[-1], l[-1].path[-1] + 1))


def s_starts(front):
    def g(ex, f, a, t, w):
        x, y = elem_vals(ex, a[0]), elem_vals(ex, a[1])
        if len(y) > len(x):
            return False
        x = x[:len(y)] if front else x[len(x) - len(y):]
        r = True
        for p, q in zip(x, y):
            r = land(r, struct_eq(ex, p, q))
        return r

    return g


def s_rchunks(ex, f, a, t, w):
    r = slice_of(ex, a[0])
    n = ex.seq_len(ex.get(r.cell, r.path), r.rng)
    b, k = (r.rng[0] if r.rng else 0), a[1]
    if k == 0:
        raise execm.PanicExc("chunk size must be non-zero", w)
    return ListIt([Ref(r.cell, r.path, (b + max(0, i - k), b + i)) for i in range(n, 0, -k)])


def str_fn(ex, v, fn):
    v = dv(ex, v)
    if isinstance(v, Str):
        return fn(v.s)
    if isinstance(v, Opaque) and v.tag.startswith("smolstr:"):
        return fn(v.tag[8:])
    raise Unsupported("string function")


def f_total_cmp(ex, f, a, t, w):
    if ex.mode != "real":
        raise Unsupported("total_cmp")
    return f_partial_cmp(ex, f, a, t, w).f[0]


def f_div_euclid(ex, f, a, t, w):
    q = mk("trunc", mk("div", a[0], a[1]))
    if ex.branch(ex.fcmp("lt", mk("fmod", a[0], a[1]), ZERO)):
        return mk("sub", q, ONE) if ex.branch(ex.fcmp("lt", ZERO, a[1])) else mk("add", q, ONE)
    return q


def cow_deref(ex, f, a, t, w):
    v = ex.deref(a[0])
    return v.f[0] if v.variant == 0 else Ref(a[0].cell, a[0].path + (0,))


def tuple_default(ex, f, a, t, w):
    m = re.search(r"for \((.*)\)>::default$", f["name"])
    ts = m.group(1).split(", ") if m else ["?"]
    o = []
    for x in ts:
        if x == "f64":
            o.append(fconst(0.0))
        elif re.match(r"[ui](8|16|32|64|size)$", x):
            o.append(0)
        elif x == "bool":
            o.append(False)
        else:
            raise Unsupported("default of " + x)
    return Agg(None, 0, o)


def f_default(ex, f, a, t, w):
    return fconst(0.0)


INT_OPS = {
    "checked_sub": lambda x, y: x - y, "checked_add": lambda x, y: x + y, "checked_mul": lambda x, y: x * y,
    "wrapping_sub": lambda x, y: x - y, "wrapping_add": lambda x, y: x + y, "wrapping_mul": lambda x, y: x * y,
    "saturating_sub": lambda x, y: x - y, "saturating_add": lambda x, y: x + y, "saturating_mul": lambda x, y: x * y,
    "pow": lambda x, y: x ** y, "abs_diff": lambda x, y: abs(x - y), "div_ceil": lambda x, y: -(-x // y),
    "abs": lambda x: abs(x), "unsigned_abs": lambda x: abs(x), "signum": lambda x: (x > 0) - (x < 0), "is_positive": lambda x: x > 0, "is_negative": lambda x: x < 0,
    "is_multiple_of": lambda x, y: x % y == 0 if y else x == 0, "is_power_of_two": lambda x: x > 0 and x & (x - 1) == 0,
    "rem_euclid": lambda x, y: x % abs(y), "div_euclid": lambda x, y: (x - x % abs(y)) // y,
    "count_ones": lambda x: bin(x).count("1"), "trailing_zeros": lambda x: (x & -x).bit_length() - 1,
}


def int_op(ex, f, a, t, w):
    m = re.search(r"impl (\w+)>::(\w+)$", f["def"])
    ty, fn = m.group(1), m.group(2)
    a = [dv(ex, x) for x in a]
    if any(not isinstance(x, int) or isinstance(x, E) for x in a):
        raise Unsupported("symbolic " + fn)
    if fn in ("rem_euclid", "div_euclid", "div_ceil") and a[1] == 0:
        raise execm.PanicExc("attempt to divide by zero", w)
    r = INT_OPS[fn](*a)
    if isinstance(r, bool):
        return r
    lo, hi = execm.int_range(ty)
    if fn.startswith("checked_"):
        return some(ex, r) if lo <= r <= hi else none(ex)
    if fn.startswith("wrapping_"):
        return (r - lo) % (hi - lo + 1) + lo
    if fn.startswith("saturating_"):
        return min(max(r, lo), hi)
    if fn in ("unsigned_abs", "abs_diff"):
        return r
    if not lo <= r <= hi:
        raise execm.PanicExc("attempt to overflow in " + fn, w)
    return r


def int_default(ex, f, a, t, w):
    return False if f["def"].startswith("<bool") else 0


def it_last(ex, f, a, t, w):
    l = as_iter(ex, a[0]).rest(ex)
    return opt(l[-1] if l else None, ex)


def it_nth(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    x = None
    for _ in range(a[1] + 1):
        x = it.next(ex)
        if x is None:
            break
    return opt(x, ex)


def it_count(ex, f, a, t, w):
    return len(as_iter(ex, a[0]).rest(ex))


def sum_f64(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    acc = None
    while True:
        x = it.next(ex)
        if x is None:
            return acc if acc is not None else fconst(0.0)
        while isinstance(x, Ref):
            x = ex.deref(x)
        if isinstance(x, int):
            acc = x if acc is None else acc + x
        else:
            acc = x if acc is None else mk("add", acc, x)


def prod_f64(ex, f, a, t, w):
    it = as_iter(ex, a[0])
    acc = None
    while True:
        x = it.next(ex)
        if x is None:
            return acc if acc is not None else fconst(1.0)
        while isinstance(x, Ref):
            x = ex.deref(x)
        acc = x if acc is None else mk("mul", acc, x)


def it_len(ex, f, a, t, w):
    r = slice_of(ex, a[0])
    v = ex.get(r.cell, r.path)
    if isinstance(v, It):
        return v.length(ex)
    return as_iter(ex, v).length(ex)


def array_map(ex, f, a, t, w):
    return Agg(None, 0, [ex.call_closure(a[1], [x]) for x in a[0].f])


def from_fn_arr(ex, f, a, t, w):
    n = int([x for x in f["args"] if isinstance(x, str)][0])
    return Agg(None, 0, [ex.call_closure(a[0], [i]) for i in range(n)])


# f64 comparisons through traits
def dv(ex, v):
    while isinstance(v, Ref):
        v = ex.deref(v)
    return v


def cmp_op(op):
    def g(ex, f, a, t, w):
        return ex.binop(op, dv(ex, a[0]), dv(ex, a[1]))

    return g


def f_partial_cmp(ex, f, a, t, w):
    x, y = dv(ex, a[0]), dv(ex, a[1])
    if isinstance(x, int) and not isinstance(x, E) and isinstance(y, int):
        return some(ex, ordering(ex, (x > y) - (x < y)))
    if ex.branch(ex.fcmp("lt", x, y)):
        return some(ex, ordering(ex, -1))
    if ex.mode == "tot":
        if ex.branch(ex.fcmp("lt", y, x)):
            return some(ex, ordering(ex, 1))
        if ex.branch(ex.fcmp("feq", x, y)):
            return some(ex, ordering(ex, 0))
        return none(ex)
    if ex.branch(ex.fcmp("feq", x, y)):
        return some(ex, ordering(ex, 0))
    return some(ex, ordering(ex, 1))


def ordering(ex, v):
    tid = getattr(ex.prog, "_ord_tid", None)
    if tid is None:
        for i, ty in enumerate(ex.prog.types):
            if ty and ty.get("name", "").endswith("cmp::Ordering"):
                tid = i
                break
        ex.prog._ord_tid = tid
    return Agg(tid, v + 1, [])


def int_cmp(ex, f, a, t, w):
    x, y = dv(ex, a[0]), dv(ex, a[1])
    return ordering(ex, (x > y) - (x < y))


def arith(op):
    def g(ex, f, a, t, w):
        if isinstance(dv(ex, a[1]), Mat):
            return na_mul(ex, f, a, t, w)
        return ex.binop(op, dv(ex, a[0]), dv(ex, a[1]))

    return g


def arith_assign(op):
    def g(ex, f, a, t, w):
        v = ex.binop(op, ex.deref(a[0]), dv(ex, a[1]))
        ex.put(a[0].cell, a[0].path, v)
        return UNIT

    return g


def f_neg(ex, f, a, t, w):
    return mk("neg", dv(ex, a[0]))


def mem_swap(ex, f, a, t, w):
    return swap(ex, f, a, t, w)


def mem_replace(ex, f, a, t, w):
    v = ex.deref(a[0])
    ex.put(a[0].cell, a[0].path, a[1])
    return v


def mem_take(ex, f, a, t, w):
    v = ex.deref(a[0])
    if isinstance(v, Seq):
        ex.put(a[0].cell, a[0].path, Seq(()))
    elif isinstance(v, Agg):
        ex.put(a[0].cell, a[0].path, Agg(v.ty, 0, []))
    else:
        raise Unsupported("mem::take")
    return v


def call_fn(ex, f, a, t, w):
    """FnOnce::call_once etc. with a known callee"""
    args = a[1].f if len(a) > 1 and isinstance(a[1], Agg) else a[1:]
    return ex.call_closure(a[0], list(args))


def min_max_len(ex, f, a, t, w):
    x, y = a
    fn = f["def"].split("::")[-1]
    return max(x, y) if fn == "max" else min(x, y)


def saturating_sub(ex, f, a, t, w):
    return max(0, a[0] - a[1])


def str_eq(ex, f, a, t, w):
    r = _str_eq(ex, a)
    return lnot(r) if f and f["def"].endswith("::ne") else r


def _str_eq(ex, a):
    x, y = dv(ex, a[0]), dv(ex, a[1])
    x, y = (Opaque("smolstr:" + v.s) if isinstance(v, Str) else v for v in (x, y))
    if isinstance(x, Opaque) and isinstance(y, Opaque):
        if x.tag == y.tag:
            return True
        if x.tag.startswith("smolstr:") and y.tag.startswith("smolstr:"):
            return False
    return mk("ubool", str(x), str(y))


def smol_as_str(ex, f, a, t, w):
    return a[0]


def smol_new(ex, f, a, t, w):
    v = dv(ex, a[0]) if a else None
    return Opaque("smolstr:" + (v.s if isinstance(v, Str) else str(v)))


# ------------------------------------------------------------------ nalgebra (3x3)
def zero():
    return fconst(0.0)


def msum(l):
    acc = l[0]
    for x in l[1:]:
        acc = mk("add", acc, x)
    return acc


def mbuild(r, c, g):
    return Mat(r, c, [g(i, j) for j in range(c) for i in range(r)])


def matmul(A, B):
    if A.c != B.r:
        raise Unsupported("nalgebra mul")
    return mbuild(A.r, B.c, lambda i, j: msum([mk("mul", A.at(i, k), B.at(k, j)) for k in range(A.c)]))


def mat(ex, v):
    v = dv(ex, v)
    if not isinstance(v, Mat):
        raise Unsupported("nalgebra: " + repr(v)[:60])
    return v


def na_dims(f, what="name"):
    m = re.search(r"Const<(\d+)>, nalgebra::(?:base::dimension::)?Const<(\d+)>", f[what])
    if not m:
        raise Unsupported("nalgebra dimensions")
    return int(m.group(1)), int(m.group(2))


def na_new(ex, f, a, t, w):
    r, c = na_dims(f)
    if r * c != len(a) or not all(isinstance(x, E) for x in a):
        raise Unsupported("nalgebra new")
    return mbuild(r, c, lambda i, j: a[i * c + j])


def na_row_slice(ex, f, a, t, w):
    r, c = na_dims(f)
    v = elem_vals(ex, a[0])
    if len(v) != r * c:
        raise execm.PanicExc("matrix size", w)
    return mbuild(r, c, lambda i, j: v[i * c + j]) if f["def"].endswith("from_row_slice") else Mat(r, c, v)


def na_lines(ex, f, a, t, w):
    v = [mat(ex, x) for x in ex.elems(a[0])]
    if f["def"].endswith("from_columns"):
        return mbuild(v[0].r, len(v), lambda i, j: v[j].f[i])
    return mbuild(len(v), v[0].c, lambda i, j: v[i].f[j])


def na_from_array_storage(ex, f, a, t, w):
    # [[T; R]; C], by columns
    v = a[0]
    while isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Agg) and isinstance(v.f[0].f[0], Agg):
        v = v.f[0]
    cols = v.f
    return Mat(len(cols[0].f), len(cols), [x for c in cols for x in c.f])


def na_from_array(ex, f, a, t, w):
    v = a[0]
    if isinstance(v, Mat):
        return Agg(None, 0, v.f) if v.c == 1 else Agg(None, 0, [Agg(None, 0, v.f[j * v.r:(j + 1) * v.r]) for j in range(v.c)])
    if isinstance(v.f[0], Agg):
        return na_from_array_storage(ex, f, [v], t, w)
    if re.search(r"RowVector|Const<1>, nalgebra::(base::dimension::)?Const<\d+>", f["name"]) and not re.search(r"Const<\d+>, nalgebra::(base::dimension::)?Const<1>", f["name"]):
        return Mat(1, len(v.f), v.f)
    return Mat(len(v.f), 1, v.f)


def na_mul(ex, f, a, t, w):
    A, B = dv(ex, a[0]), dv(ex, a[1])
    if isinstance(A, Mat) and isinstance(B, Mat):
        return matmul(A, B)
    if isinstance(A, Mat):
        return Mat(A.r, A.c, [mk("mul", x, B) for x in A.f])
    if isinstance(B, Mat):
        return Mat(B.r, B.c, [mk("mul", A, x) for x in B.f])
    raise Unsupported("nalgebra mul")


def na_each(op):
    """elementwise with a scalar or a matrix of the same shape"""

    def g(ex, f, a, t, w):
        A, B = mat(ex, a[0]), dv(ex, a[1])
        if isinstance(B, Mat):
            if (A.r, A.c) != (B.r, B.c):
                raise Unsupported("nalgebra shapes")
            return Mat(A.r, A.c, [mk(op, x, y) for x, y in zip(A.f, B.f)])
        if op in ("add", "sub"):
            raise Unsupported("nalgebra add")
        return Mat(A.r, A.c, [mk(op, x, B) for x in A.f])

    return g


def na_assign(fn):
    def g(ex, f, a, t, w):
        r = slice_of(ex, a[0])
        ex.put(r.cell, r.path, fn(ex, f, a, t, w))
        return UNIT

    return g


def na_transpose(ex, f, a, t, w):
    A = mat(ex, a[0])
    return mbuild(A.c, A.r, lambda i, j: A.at(j, i))


def na_identity(ex, f, a, t, w):
    r, c = na_dims(f)
    return mbuild(r, c, lambda i, j: fconst(1.0 if i == j else 0.0))


def na_fill(x):
    def g(ex, f, a, t, w):
        r, c = na_dims(f)
        return Mat(r, c, [fconst(x) if x is not None else dv(ex, a[0])] * (r * c))

    return g


def na_neg(ex, f, a, t, w):
    A = mat(ex, a[0])
    return Mat(A.r, A.c, [mk("neg", x) for x in A.f])


def na_index(ex, f, a, t, w):
    r = slice_of(ex, a[0])
    A = mat(ex, r)
    i = a[1]
    if isinstance(i, Agg):
        bad, k = not (0 <= i.f[0] < A.r and 0 <= i.f[1] < A.c), i.f[1] * A.r + i.f[0]
    else:
        bad, k = not (0 <= i < len(A.f)), i  # column-major linear index
    if bad:
        raise execm.PanicExc("Matrix index out of bounds.", w)
    return Ref(r.cell, r.path + (k,))


def na_xyz(ex, f, a, t, w):
    # x, y, z or m11, m21, m31, m12 ..: fields in column-major order
    return slice_of(ex, a[0])


def na_iter(ex, f, a, t, w):
    return ListIt(ex.elems(slice_of(ex, a[0])))


def na_map(ex, f, a, t, w):
    A = mat(ex, a[0])
    return Mat(A.r, A.c, [ex.call_closure(a[1], [x]) for x in A.f])


def na_dot(ex, f, a, t, w):
    A, B = mat(ex, a[0]), mat(ex, a[1])
    if len(A.f) != len(B.f):
        raise Unsupported("nalgebra dot")
    return msum([mk("mul", x, y) for x, y in zip(A.f, B.f)])


def na_cross(ex, f, a, t, w):
    (x, y, z), (p, q, r) = mat(ex, a[0]).f, mat(ex, a[1]).f

    def d(a, b, c, e):
        return mk("sub", mk("mul", a, b), mk("mul", c, e))

    return Mat(3, 1, [d(y, r, z, q), d(z, p, x, r), d(x, q, y, p)])


def na_cross_matrix(ex, f, a, t, w):
    x, y, z = mat(ex, a[0]).f
    n = lambda v: mk("neg", v)
    o = fconst(0.0)
    return Mat(3, 3, [o, z, n(y), n(z), o, x, y, n(x), o])


def na_norm2(ex, f, a, t, w):
    return msum([mk("mul", x, x) for x in mat(ex, a[0]).f])


def na_norm(ex, f, a, t, w):
    return mk("sqrt", na_norm2(ex, f, a, t, w))


def na_sum(ex, f, a, t, w):
    return msum(list(mat(ex, a[0]).f))


def na_line(ex, f, a, t, w):
    A, k = mat(ex, a[0]), a[1]
    if f["def"].endswith("::row"):
        if k >= A.r:
            raise execm.PanicExc("Matrix slicing out of bounds.", w)
        return Mat(1, A.c, [A.at(k, j) for j in range(A.c)])
    if k >= A.c:
        raise execm.PanicExc("Matrix slicing out of bounds.", w)
    return Mat(A.r, 1, [A.at(i, k) for i in range(A.r)])


def cof(A, i, j):
    r = [x for x in range(3) if x != i]
    c = [x for x in range(3) if x != j]
    d = mk("sub", mk("mul", A.at(r[0], c[0]), A.at(r[1], c[1])), mk("mul", A.at(r[0], c[1]), A.at(r[1], c[0])))
    return d if (i + j) % 2 == 0 else mk("neg", d)


def na_det(ex, f, a, t, w):
    A = mat(ex, a[0])
    if (A.r, A.c) != (3, 3):
        raise Unsupported("determinant")
    return msum([mk("mul", A.at(0, j), cof(A, 0, j)) for j in range(3)])


def na_try_inverse(ex, f, a, t, w):
    A = mat(ex, a[0])
    det = na_det(ex, f, [A], t, w)
    if ex.branch(ex.fcmp("feq", det, ZERO)):
        return none(ex)
    return some(ex, mbuild(3, 3, lambda i, j: mk("div", cof(A, j, i), det)))


# ------------------------------------------------------------------ uninterpreted functions
def flat(ex, v, out):
    while isinstance(v, Ref):
        v = ex.deref(v)
    if isinstance(v, (Agg, Seq)):
        if isinstance(v, Agg):
            out.append(v.variant)
        for x in v.f:
            flat(ex, x, out)
    elif isinstance(v, Mat):
        out.extend(v.f)
    elif isinstance(v, E):
        out.append(v)
    else:
        out.append(str(v))


def uninterpreted(ex, f, a, t):
    l = []
    for x in a:
        flat(ex, x, l)
    # arguments in rational normal form, so that equal arguments are the same term
    if getattr(ex, "canon", None) is None:
        from prove import PathProver
        ex.canon = PathProver([], [])
    try:
        l = [ex.canon.shallow(x) if isinstance(x, E) else x for x in l]
        nm = ex.canon.shnm
        l = [nm.to_expr(nm.nf(x)) if is_f(x) else x for x in l]
    except Exception:
        pass
    ret = f["body"]["locals"][0] if "body" in f else None
    n = [0]

    def build(tid):
        ty = ex.prog.types[tid]
        if ty["k"] == "float":
            n[0] += 1
            return mk("uf", f["def"], n[0], *l)
        if ty["k"] == "tuple":
            return Agg(tid, 0, [build(x) for x in ty["f"]])
        if ty["k"] == "adt" and ty["kind"] == "Struct":
            return Agg(tid, 0, [build(x[1]) for x in ty["variants"][0]["fields"]])
        if ty["k"] == "adt" and ty["kind"] == "Enum":
            # which variant comes back is itself a function of the arguments
            for vi in range(len(ty["variants"]) - 1):
                n[0] += 1
                if ex.branch(ex.binop("Gt", mk("uf", f["def"], n[0], *l), fconst(0.0))):
                    break
            else:
                vi = len(ty["variants"]) - 1
            return Agg(tid, vi, [build(x[1]) for x in ty["variants"][vi]["fields"]])
        if ty["s"] in ("&str", "&'static str"):
            return Opaque("str")
        raise Unsupported("uninterpreted result " + ty["s"])

    return build(ret)


def abs_diff_eq(ex, f, a, t, w):
    # approx 0.5, f64: self == other || |self - other| <= epsilon
    x, y = dv(ex, a[0]), dv(ex, a[1])
    return ex.fcmp("le", mk("abs", mk("sub", x, y)), a[2])


def eq_generic(ex, f, a, t, w):
    x, y = eqv(ex, a[0]), eqv(ex, a[1])
    r = struct_eq(ex, x, y)
    return lnot(r) if f["def"].endswith("::ne") else r


def eqv(ex, v):
    """the value compared: through references, and only the part of the sequence a slice shows"""
    rng = None
    while isinstance(v, Ref):
        rng = v.rng
        v = ex.deref(v)
    return Seq(v.f[rng[0]:rng[1]]) if rng else v


def struct_eq(ex, x, y):
    x, y = eqv(ex, x), eqv(ex, y)
    if isinstance(x, (Agg, Seq)) and isinstance(y, (Agg, Seq)):
        if isinstance(x, Agg) and isinstance(y, Agg) and x.variant != y.variant:
            return False
        if len(x.f) != len(y.f):
            return False
        r = True
        for p, q in zip(x.f, y.f):
            r = land(r, struct_eq(ex, p, q))
        return r
    if isinstance(x, Str) or isinstance(x, Opaque):
        return str_eq(ex, None, [x, y], None, "")
    return ex.binop("Eq", x, y)


def rx(p):
    return re.compile(p)


def iter_model(cls):
    return lambda ex, f, a, t, w: cls(as_iter(ex, a[0]), *a[1:])


def zip_model(ex, f, a, t, w):
    return ZipIt(as_iter(ex, a[0]), as_iter(ex, a[1]))


def chain_model(ex, f, a, t, w):
    return ChainIt(as_iter(ex, a[0]), as_iter(ex, a[1]))


def copied(ex, f, a, t, w):
    v = a[0]
    if isinstance(v, Agg) and (v.ty is None or ex.prog.types[v.ty].get("name", "").endswith("Option")):
        return v if not v.f else some(ex, ex.deref(v.f[0]))
    return CopiedIt(as_iter(ex, a[0]))


def slice_iter(ex, f, a, t, w):
    return ListIt(ex.elems(a[0]))


def split_at(ex, f, a, t, w):
    r = slice_of(ex, a[0])
    n = ex.seq_len(ex.get(r.cell, r.path), r.rng)
    b = r.rng[0] if r.rng else 0
    k = a[1]
    if k > n:
        raise execm.PanicExc("mid > len", w)
    return Agg(None, 0, [Ref(r.cell, r.path, (b, b + k)), Ref(r.cell, r.path, (b + k, b + n))])


def unwrap_failed(ex, f, a, t, w):
    raise execm.PanicExc(f["def"].split("::")[-1], w)


EXACT = {}
RX = [
    # panics
    (rx(r"^(core|std)::panicking::"), panic),
    (rx(r"^std::rt::(begin_panic|panic_fmt)|panic_display|^core::option::(unwrap_failed|expect_failed)|^core::result::unwrap_failed"), panic),
    (rx(r"slice_index_fail|slice_.*_fail|panic_bounds_check|panic_fmt"), panic),
    (rx(r"std::fmt::|core::fmt::|::fmt::Arguments|fmt::rt::|std::string::ToString|^alloc::fmt::format|^std::fmt::format"), opaque("fmt")),
    (rx(r"^<f64 as num_traits::identities::Zero>::zero$|num_traits::identities::Zero for f64>::zero$"), lambda ex, f, a, t, w: fconst(0.0)),
    (rx(r"^<f64 as approx::abs_diff_eq::AbsDiffEq>::default_epsilon$|AbsDiffEq for f64>::default_epsilon$"), lambda ex, f, a, t, w: fconst(2.220446049250313e-16)),
    (rx(r"^<f64 as approx::abs_diff_eq::AbsDiffEq>::abs_diff_eq$|AbsDiffEq for f64>::abs_diff_eq$"), abs_diff_eq),
    (rx(r"^<f64 as approx::abs_diff_eq::AbsDiffEq>::abs_diff_ne$|AbsDiffEq for f64>::abs_diff_ne$|^approx::abs_diff_eq::AbsDiffEq::abs_diff_ne$"), lambda ex, f, a, t, w: lnot(abs_diff_eq(ex, f, a, t, w))),
    (rx(r"std::array::<impl std::convert::As(Ref|Mut)<\[T\]> for \[T; N\]>::as_(ref|mut)$|std::array::<impl std::borrow::Borrow"), ident),
    (rx(r"std::io::_e?print$"), lambda ex, f, a, t, w: Agg(None, 0, [])),
    (rx(r"^dyn_clone::clone_box$"), clone_box),
    (rx(r"^<\(?dyn std::any::Any[^>]*>::(is|downcast_ref|downcast_mut)$"), downcast),
    (rx(r"dyn_clone::clone$|__clone_box"), clone),
    # box
    (rx(r"^std::boxed::Box::<T>::new$"), box_new),
    (rx(r"^std::boxed::Box::<T>::new_uninit$"), lambda ex, f, a, t, w: Ref(Cell(Opaque("uninit"), "box"))),
    (rx(r"Vec(::)?<[^>]*>::into_boxed_slice$"), lambda ex, f, a, t, w: Ref(Cell(Seq(a[0].f), "box"))),
    (rx(r"boxed::box_assume_init_into_vec_unsafe|slice::<impl \[T\]>::into_vec$"), lambda ex, f, a, t, w: Seq(ex.deref(a[0]).f) if isinstance(a[0], Ref) else Seq(a[0].f)),
    (rx(r"Box<T(, A)?> as std::(ops::Deref(Mut)?>::deref|convert::AsRef|borrow::Borrow)"), lambda ex, f, a, t, w: ex.deref(a[0])),
    # clone
    (rx(r"as std::clone::Clone>::clone$"), None),
    # vec & smallvec
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::(new|with_capacity|new_const)$"), vec_new),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::from_elem$|^std::vec::from_elem"), vec_from_elem),
    (rx(r"SmallVec(::)?<[^>]*>::(inline_size|capacity)$"), vec_inline_size),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::push$"), vec_push),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::pop$"), vec_pop),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::(len)$|impl \[T\]>::len$"), seq_len),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::(is_empty)$|impl \[T\]>::is_empty$"), seq_is_empty),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::(as_slice|as_mut_slice)$|(Vec|SmallVec)<.*> as std::(ops::Deref(Mut)?|convert::AsRef<\[T\]>|borrow::Borrow<\[T\]>|convert::AsMut<\[T\]>)>::\w+$"), deref_seq),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::(from_slice|from_vec|from_buf|from|from_elem_)$|impl \[T\]>::to_vec$|as std::borrow::ToOwned>::to_owned|SmallVec<A> as std::convert::From|Vec<.*> as std::convert::From|SmallVec<A> as smallvec::ToSmallVec|to_smallvec"), to_vec),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::(extend_from_slice)$|as std::iter::Extend<.*>>::extend$"), extend),
    (rx(r"as std::ops::Index(Mut)?<I>>::index(_mut)?$|slice::index::<impl std::ops::Index|std::array::<impl std::ops::Index"), index),
    (rx(r"impl \[T\]>::get(_mut)?$"), get_opt),
    (rx(r"impl \[T\]>::first(_mut)?$"), first_last(0)),
    (rx(r"impl \[T\]>::last(_mut)?$"), first_last(-1)),
    (rx(r"impl \[T\]>::copy_from_slice$|impl \[T\]>::clone_from_slice$"), copy_from_slice),
    (rx(r"impl \[T\]>::fill$"), fill),
    (rx(r"impl \[T\]>::swap$|^std::mem::swap$"), swap),
    (rx(r"impl \[T\]>::split_at(_mut)?$"), split_at),
    (rx(r"^std::mem::replace$"), mem_replace),
    (rx(r"^std::mem::take$"), mem_take),
    (rx(r"impl \[T\]>::windows$"), windows),
    (rx(r"impl \[T\]>::chunks_exact$"), chunks(True)),
    (rx(r"impl \[T\]>::chunks$"), chunks(False)),
    (rx(r"impl \[T\]>::iter(_mut)?$"), slice_iter),
    (rx(r"array::<impl \[T; N\]>::map$"), array_map),
    (rx(r"array::<impl \[T; N\]>::as_slice$"), ident),
    (rx(r"^std::array::from_fn$"), from_fn_arr),
    (rx(r"impl \[T\]>::split_first(_mut)?$"), split_end(0)),
    (rx(r"impl \[T\]>::split_last(_mut)?$"), split_end(-1)),
    (rx(r"impl \[T\]>::first_chunk$"), first_chunk(False)),
    (rx(r"impl \[T\]>::last_chunk$"), first_chunk(True)),
    (rx(r"impl \[T\]>::reverse$"), lambda ex, f, a, t, w: set_elems(ex, a[0], elem_vals(ex, a[0])[::-1])),
    (rx(r"impl \[T\]>::rotate_left$"), s_rotate(1)),
    (rx(r"impl \[T\]>::rotate_right$"), s_rotate(-1)),
    (rx(r"impl \[T\]>::sort(_unstable)?_by$"), s_sort_by),
    (rx(r"impl \[T\]>::contains$"), s_contains),
    (rx(r"impl \[T\]>::partition_point$"), s_partition_point),
    (rx(r"impl \[T\]>::copy_within$"), s_copy_within),
    (rx(r"impl \[T\]>::concat$"), s_concat),
    (rx(r"impl \[T\]>::chunks_exact_mut$"), chunks(True)),
    (rx(r"impl \[T\]>::chunks_mut$"), chunks(False)),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::insert$"), vec_edit(v_insert)),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::remove$"), vec_edit(v_remove)),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::swap_remove$"), vec_edit(v_swap_remove)),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::truncate$"), vec_edit(v_truncate)),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::append$"), vec_edit(v_append)),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::drain$"), vec_edit(v_drain)),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::resize$"), vec_edit(v_resize)),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::retain$"), vec_edit(v_dedup_retain)),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::clear$"), vec_edit(lambda ex, l, a, w: l.clear())),
    (rx(r"(Vec|SmallVec)(::)?<[^>]*>::(reserve|reserve_exact|shrink_to_fit)$"), lambda ex, f, a, t, w: UNIT),
    (rx(r"std::array::<impl std::convert::TryFrom<.*> for \[T; N\]>::try_from$|^<T as std::convert::TryInto<U>>::try_into$"), array_try_from),
    (rx(r"^std::(rc::Rc|sync::Arc)::<T>::new$"), box_new),
    (rx(r"^<std::(rc::Rc|sync::Arc)<T(, A)?> as std::(ops::Deref>::deref|convert::AsRef|borrow::Borrow)"), lambda ex, f, a, t, w: ex.deref(a[0])),
    (rx(r"^<std::borrow::Cow<'_, B> as std::ops::Deref>::deref$"), cow_deref),
    (rx(r"^<std::string::String as std::convert::From<&(mut )?str>>::from$|^std::str::<impl str>::to_owned$"), smol_new),
    (rx(r"^std::string::String::(as_str|deref)$|^<std::string::String as std::ops::Deref>::deref$"), smol_as_str),
    (rx(r"^std::string::String::new$"), lambda ex, f, a, t, w: Opaque("smolstr:")),
    (rx(r"^<std::string::String as std::cmp::PartialEq.*>::(eq|ne)$|PartialEq<std::string::String> for .*>::(eq|ne)$"), str_eq),
    (rx(r"^core::tuple::<impl std::default::Default for "), tuple_default),
    (rx(r"^<f64 as std::default::Default>::default$"), f_default),
    (rx(r"^<(usize|u8|u16|u32|u64|i8|i16|i32|i64|isize|bool) as std::default::Default>::default$"), int_default),
    (rx(r"^<(std::vec::Vec|smallvec::SmallVec)<.*> as std::default::Default>::default$"), vec_new),
    (rx(r"core::num::<impl \w+>::(" + "|".join(INT_OPS) + r")$"), int_op),
    (rx(r"Iterator(>| for .*>)?::filter_map$"), iter_model(FilterMapIt)),
    (rx(r"Iterator(>| for .*>)?::map_while$"), iter_model(MapWhileIt)),
    (rx(r"Iterator(>| for .*>)?::find_map$"), it_filter_map_find),
    (rx(r"Iterator(>| for .*>)?::(flat_map|flatten)$"), iter_model(FlatIt)),
    (rx(r"Iterator(>| for .*>)?::scan$"), iter_model(ScanIt)),
    (rx(r"Iterator(>| for .*>)?::inspect$"), iter_model(InspectIt)),
    (rx(r"Iterator(>| for .*>)?::skip_while$"), iter_model(SkipWhileIt)),
    (rx(r"Iterator(>| for .*>)?::cycle$"), iter_model(CycleIt)),
    (rx(r"^std::iter::successors$"), lambda ex, f, a, t, w: SuccIt(opt_val(ex, a[0]), a[1])),
    (rx(r"^std::iter::repeat$"), lambda ex, f, a, t, w: RepeatIt(a[0])),
    (rx(r"^std::iter::repeat_n$"), lambda ex, f, a, t, w: ListIt([a[0]] * a[1])),
    (rx(r"^std::iter::once$"), lambda ex, f, a, t, w: ListIt([a[0]])),
    (rx(r"^std::iter::empty$"), lambda ex, f, a, t, w: ListIt([])),
    (rx(r"^std::iter::from_fn$"), lambda ex, f, a, t, w: FromFnIt(a[0])),
    (rx(r"Iterator(>| for .*>)?::try_fold$"), it_try_fold),
    (rx(r"Iterator(>| for .*>)?::reduce$"), it_reduce),
    (rx(r"Iterator(>| for .*>)?::max_by$"), it_min_max(True, "by")),
    (rx(r"Iterator(>| for .*>)?::min_by$"), it_min_max(False, "by")),
    (rx(r"Iterator(>| for .*>)?::max_by_key$"), it_min_max(True, "key")),
    (rx(r"Iterator(>| for .*>)?::min_by_key$"), it_min_max(False, "key")),
    (rx(r"Iterator(>| for .*>)?::max$"), it_min_max(True, "")),
    (rx(r"Iterator(>| for .*>)?::min$"), it_min_max(False, "")),
    (rx(r"Iterator(>| for .*>)?::unzip$"), it_unzip),
    (rx(r"Iterator(>| for .*>)?::partition$"), it_partition),
    (rx(r"Iterator(>| for .*>)?::(eq|ne)$"), it_eq),
    (rx(r"Iterator(>| for .*>)?::rfind$"), it_rfind),
    (rx(r"Iterator(>| for .*>)?::rposition$"), it_rposition),
    (rx(r"Iterator(>| for .*>)?::nth_back$"), it_nth_back),
    (rx(r"Iterator(>| for .*>)?::by_ref$"), it_by_ref),
    (rx(r"Iterator(>| for .*>)?::fuse$"), lambda ex, f, a, t, w: as_iter(ex, a[0])),
    (rx(r"Iterator(>| for .*>)?::size_hint$"), lambda ex, f, a, t, w: Agg(None, 0, [as_iter(ex, a[0]).length(ex), some(ex, as_iter(ex, a[0]).length(ex))])),
    (rx(r"Iterator(>| for .*>)?::try_for_each$"), it_try_for_each),
    (rx(r"^std::iter::zip$"), zip_model),
    (rx(r"^<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$"), lambda ex, f, a, t, w: Seq(as_iter(ex, a[0]).rest(ex))),
    (rx(r"std::option::Option::<T>::iter(_mut)?$"), lambda ex, f, a, t, w: ListIt([Ref(a[0].cell, a[0].path + (0,))] if opt_val(ex, ex.deref(a[0])) is not None else [])),
    (rx(r"^std::prelude::v1::Some$|^std::option::Option::Some$|^std::option::Option::<T>::Some$"), lambda ex, f, a, t, w: some(ex, a[0])),
    (rx(r"^std::(prelude::v1|result::Result)::Ok$"), lambda ex, f, a, t, w: Agg(None, 0, [a[0]])),
    (rx(r"^std::(prelude::v1|result::Result)::Err$"), lambda ex, f, a, t, w: Agg(None, 1, [a[0]])),
    (rx(r"^<std::option::Option<T> as std::default::Default>::default$"), lambda ex, f, a, t, w: none(ex)),
    (rx(r"^std::slice::Iter::<'a, T>::as_slice$"), iter_as_slice),
    (rx(r"impl \[T\]>::starts_with$"), s_starts(True)),
    (rx(r"impl \[T\]>::ends_with$"), s_starts(False)),
    (rx(r"impl \[T\]>::rchunks$"), s_rchunks),
    (rx(r"impl \[T\]>::get_unchecked(_mut)?$"), index),
    (rx(r"impl \[\[T; N\]\]>::as_flattened$"), lambda ex, f, a, t, w: Ref(Cell(Seq([y for x in elem_vals(ex, a[0]) for y in x.f]), "flat"))),
    (rx(r"array::<impl \[T; N\]>::each_(ref|mut)$"), lambda ex, f, a, t, w: Agg(None, 0, ex.elems(a[0]))),
    (rx(r"^<&(mut )?T as std::convert::As(Ref|Mut)<U>>::as_(ref|mut)$|slice::<impl std::convert::As(Ref|Mut)<\[T\]> for \[T\]>::as_(ref|mut)$"), lambda ex, f, a, t, w: slice_of(ex, a[0])),
    (rx(r"slice::<impl std::borrow::ToOwned for \[T\]>::to_owned$"), to_vec),
    (rx(r"^<&?('a )?(usize|u8|u32|i32|u64|i64) as std::ops::Add.*>::add$|impl std::ops::Add.* for &?('a )?(usize|u8|u32|i32|u64|i64)>::add$"), arith("Add")),
    (rx(r"^<&?('a )?(usize|u8|u32|i32|u64|i64) as std::ops::Sub.*>::sub$|impl std::ops::Sub.* for &?('a )?(usize|u8|u32|i32|u64|i64)>::sub$"), arith("Sub")),
    (rx(r"^<&?('a )?(usize|u8|u32|i32|u64|i64) as std::ops::Mul.*>::mul$|impl std::ops::Mul.* for &?('a )?(usize|u8|u32|i32|u64|i64)>::mul$"), arith("Mul")),
    (rx(r"^core::str::<impl str>::len$"), lambda ex, f, a, t, w: str_fn(ex, a[0], lambda s: len(s.encode()))),
    (rx(r"^core::str::<impl str>::is_empty$|^std::string::String::is_empty$"), lambda ex, f, a, t, w: str_fn(ex, a[0], lambda s: not s)),
    (rx(r"^std::cell::(Ref)?Cell::<T>::new$"), ident),
    (rx(r"^std::cell::Cell::<T>::get$"), lambda ex, f, a, t, w: ex.deref(a[0])),
    (rx(r"^std::cell::Cell::<T>::set$"), lambda ex, f, a, t, w: (ex.put(a[0].cell, a[0].path, a[1]), UNIT)[1]),
    (rx(r"^approx::abs_diff_eq::AbsDiffEq::abs_diff_eq$|^<f64 as approx::AbsDiffEq>::abs_diff_eq$"), abs_diff_eq),
    (rx(r"^<f64 as approx::AbsDiffEq>::default_epsilon$"), lambda ex, f, a, t, w: fconst(2.220446049250313e-16)),
    (rx(r"iter::Peekable::<I>::peek$"), it_peek),
    (rx(r"iter::Peekable::<I>::next_if$"), it_next_if),
    (rx(r"std::(option::Option|result::Result)<T(, E)?> as std::iter::(Sum|Product)<.*>>::(sum|product)$"), sum_opt),
    # iterators
    (rx(r"IntoIterator>::into_iter$|IntoIterator for .*>::into_iter$"), into_iter),
    (rx(r"Iterator(>| for .*>)?::next$"), it_next),
    (rx(r"(DoubleEndedIterator)(>| for .*>)?::next_back$"), it_next_back),
    (rx(r"Iterator(>)?::map$"), iter_model(MapIt)),
    (rx(r"Iterator(>)?::filter$"), iter_model(FilterIt)),
    (rx(r"Iterator(>)?::zip$"), zip_model),
    (rx(r"Iterator(>)?::chain$"), chain_model),
    (rx(r"Iterator(>)?::enumerate$"), iter_model(EnumIt)),
    (rx(r"Iterator(>)?::rev$"), iter_model(RevIt)),
    (rx(r"Iterator(>)?::skip$"), iter_model(SkipIt)),
    (rx(r"Iterator(>)?::take$"), iter_model(TakeIt)),
    (rx(r"Iterator(>)?::step_by$"), iter_model(StepIt)),
    (rx(r"Iterator(>)?::peekable$"), iter_model(PeekIt)),
    (rx(r"Iterator(>)?::take_while$"), iter_model(TakeWhileIt)),
    (rx(r"Iterator(>)?::(copied|cloned)$|Option::<&(mut )?T>::(copied|cloned)$"), copied),
    (rx(r"Iterator(>)?::(fold)$"), it_fold),
    (rx(r"Iterator(>)?::(rfold)$"), lambda ex, f, a, t, w: it_fold(ex, f, [RevIt(as_iter(ex, a[0]))] + list(a[1:]), t, w)),
    (rx(r"Iterator(>)?::(for_each)$"), it_for_each),
    (rx(r"Iterator(>)?::any$"), it_any),
    (rx(r"Iterator(>)?::all$"), it_all),
    (rx(r"Iterator(>)?::position$"), it_position),
    (rx(r"Iterator(>)?::find$"), it_find),
    (rx(r"Iterator(>)?::collect$"), it_collect),
    (rx(r"Iterator(>)?::last$"), it_last),
    (rx(r"Iterator(>)?::nth$"), it_nth),
    (rx(r"Iterator(>)?::count$"), it_count),
    (rx(r"ExactSizeIterator(>)?::len$"), it_len),
    (rx(r"impl std::iter::Sum.* for (f64|usize)>::sum$|<(f64|usize) as std::iter::Sum.*>::sum$"), sum_f64),
    (rx(r"impl std::iter::Product.* for f64>::product$|<f64 as std::iter::Product.*>::product$"), prod_f64),
    # comparison & arithmetic through traits on primitives
    (rx(r"std::cmp::impls::<impl std::cmp::PartialOrd for f64>::partial_cmp$|PartialOrd for (usize|u8|u32|i32|u64|i64)>::partial_cmp$|<(f64|usize|u8|i32) as std::cmp::PartialOrd>::partial_cmp$"), f_partial_cmp),
    (rx(r"impl std::cmp::Ord for (usize|u8|u32|i32|u64|i64)>::cmp$"), int_cmp),
    (rx(r"impls::<impl std::cmp::PartialOrd for \w+>::lt$"), cmp_op("Lt")),
    (rx(r"impls::<impl std::cmp::PartialOrd for \w+>::le$"), cmp_op("Le")),
    (rx(r"impls::<impl std::cmp::PartialOrd for \w+>::gt$"), cmp_op("Gt")),
    (rx(r"impls::<impl std::cmp::PartialOrd for \w+>::ge$"), cmp_op("Ge")),
    (rx(r"impls::<impl std::cmp::PartialEq for (f64|usize|u8|u32|i32|bool|u64|i64)>::eq$|cmp::impls::<impl std::cmp::PartialEq for \w+>::eq$"), cmp_op("Eq")),
    (rx(r"impls::<impl std::cmp::PartialEq for (f64|usize|u8|u32|i32|bool|u64|i64)>::ne$"), cmp_op("Ne")),
    (rx(r"SmolStr as std::cmp::PartialEq|impl std::cmp::PartialEq for str>|str::traits::<impl std::cmp::PartialEq|smol_str::.*PartialEq.*::eq$"), str_eq),
    (rx(r"smol_str::SmolStr::(as_str|to_string)$"), smol_as_str),
    (rx(r"smol_str::SmolStr::(new|new_static|new_inline)$|<smol_str::SmolStr as std::convert::From|impl std::convert::Into<U> for T>::into.*SmolStr|as std::convert::Into<smol_str::SmolStr>>::into"), smol_new),
    (rx(r"Vec<.*> as std::cmp::PartialEq|std::array::equality|slice::cmp::<impl|SmallVec<A> as std::cmp::PartialEq"), eq_generic),
    (rx(r"f64 as std::ops::Neg>::neg$|impl std::ops::Neg for (&)?f64>::neg$"), f_neg),
    (rx(r"impl std::ops::Add.* for (&('a )?)?f64>::add$|<&?('a )?f64 as std::ops::Add.*>::add$"), arith("Add")),
    (rx(r"impl std::ops::Sub.* for (&('a )?)?f64>::sub$|<&?('a )?f64 as std::ops::Sub.*>::sub$"), arith("Sub")),
    (rx(r"impl std::ops::Mul.* for (&('a )?)?f64>::mul$|<&?('a )?f64 as std::ops::Mul(<&?f64>)?>::mul$"), arith("Mul")),
    (rx(r"impl std::ops::Div.* for (&('a )?)?f64>::div$|<&?('a )?f64 as std::ops::Div(<&?f64>)?>::div$"), arith("Div")),
    (rx(r"<f64 as std::ops::AddAssign.*>::add_assign$"), arith_assign("Add")),
    (rx(r"<f64 as std::ops::SubAssign.*>::sub_assign$"), arith_assign("Sub")),
    (rx(r"<f64 as std::ops::MulAssign.*>::mul_assign$"), arith_assign("Mul")),
    (rx(r"<f64 as std::ops::DivAssign.*>::div_assign$"), arith_assign("Div")),
    (rx(r"Ord>?(::| for \w+>::)(min|max)$"), min_max_len),
    (rx(r"impl (usize|u8|u32|u64)>::saturating_sub$"), saturating_sub),
    (rx(r"std::ops::Fn(Once|Mut)?(<.*>)?>?::call(_once|_mut)?$"), call_fn),
    # nalgebra
    (rx(r"^nalgebra::.*(Matrix3|Vector3|Matrix).*::new$"), na_new),
    (rx(r"^nalgebra::.*::from_(row|column)_slice$"), na_row_slice),
    (rx(r"^nalgebra::.*::from_(columns|rows)$"), na_lines),
    (rx(r"^nalgebra::.*::from_array_storage$"), na_from_array_storage),
    (rx(r"^nalgebra::base::conversion::<impl std::convert::(From<.*\[.*>|Into<.*\[.*>) for .*>::(from|into)$|^nalgebra::base::conversion::<impl std::convert::From<.*> for \[.*\]>::from$"), na_from_array),
    (rx(r"^nalgebra::.*std::ops::Mul.*::mul$|<nalgebra::Matrix.* as std::ops::Mul.*>::mul$"), na_mul),
    (rx(r"^nalgebra::.*std::ops::Add(<.*>)? for.*::add$|<nalgebra::Matrix.* as std::ops::Add.*>::add$"), na_each("add")),
    (rx(r"^nalgebra::.*std::ops::Sub(<.*>)? for.*::sub$|<nalgebra::Matrix.* as std::ops::Sub.*>::sub$"), na_each("sub")),
    (rx(r"^nalgebra::.*std::ops::Div(<.*>)? for.*::div$"), na_each("div")),
    (rx(r"^nalgebra::.*::add_assign$"), na_assign(na_each("add"))),
    (rx(r"^nalgebra::.*::sub_assign$"), na_assign(na_each("sub"))),
    (rx(r"^nalgebra::.*::mul_assign$"), na_assign(na_mul)),
    (rx(r"^nalgebra::.*::div_assign$"), na_assign(na_each("div"))),
    (rx(r"^nalgebra::.*::component_mul$"), na_each("mul")),
    (rx(r"^nalgebra::.*::component_div$"), na_each("div")),
    (rx(r"^nalgebra::.*::scale$"), na_each("mul")),
    (rx(r"^nalgebra::.*::unscale$"), na_each("div")),
    (rx(r"^nalgebra::.*::transpose$"), na_transpose),
    (rx(r"^nalgebra::.*::identity$"), na_identity),
    (rx(r"^nalgebra::.*::zeros$"), na_fill(0.0)),
    (rx(r"^nalgebra::.*::(from_element|repeat)$"), na_fill(None)),
    (rx(r"^nalgebra::.*Neg for.*::neg$"), na_neg),
    (rx(r"^nalgebra::.*Index(Mut)?<.*::index(_mut)?$"), na_index),
    (rx(r"^nalgebra::.*Deref(Mut)? for.*::deref(_mut)?$"), na_xyz),
    (rx(r"^nalgebra::.*::as_(mut_)?slice$"), na_xyz),
    (rx(r"^nalgebra::.*Matrix::<T, R, C, S>::iter(_mut)?$"), na_iter),
    (rx(r"^nalgebra::.*Matrix::<T, R, C, S>::map$"), na_map),
    (rx(r"^nalgebra::.*::dot$"), na_dot),
    (rx(r"^nalgebra::.*::cross$"), na_cross),
    (rx(r"^nalgebra::.*::cross_matrix$"), na_cross_matrix),
    (rx(r"^nalgebra::.*::(norm|magnitude)$"), na_norm),
    (rx(r"^nalgebra::.*::(norm_squared|magnitude_squared)$"), na_norm2),
    (rx(r"^nalgebra::base::statistics::.*::sum$"), na_sum),
    (rx(r"^nalgebra::.*::(row|column)$"), na_line),
    (rx(r"^nalgebra::.*::determinant$"), na_det),
    (rx(r"^nalgebra::.*::try_inverse$"), na_try_inverse),
    (rx(r"^std::convert::identity$"), ident),
    (rx(r"^std::hint::must_use$"), ident),
]


def _clone_dispatch(f):
    # derived Clone of geokit types is executed from MIR; library types are value copies
    if f["krate"] in ("geokit", "proofs") and "body" in f:
        return None
    return clone


_old_find = _find


def _find(f):  # noqa
    d = f["def"]
    if d.endswith("Clone>::clone") or d.endswith("Clone::clone") or re.search(r"impl std::clone::Clone for .*>::clone$", d):
        return _clone_dispatch(f)
    return _old_find(f)


RX = [(p, fn) for p, fn in RX if fn is not None]
