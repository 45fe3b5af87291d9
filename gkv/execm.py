"""Symbolic executor over monomorphic MIR.

Exploration is by re-execution: a path is a list of decisions; at a symbolic branch past the
prefix both outcomes are tested for feasibility and the other one is queued.
"""
import re, sys, time, math, hashlib
from fractions import Fraction
from expr import *
from mirload import *

sys.setrecursionlimit(20000)


def fold_f(op, v):
    """IEEE constant folding"""
    inf, nan = float("inf"), float("nan")
    try:
        if op == "add":
            return v[0] + v[1]
        if op == "sub":
            return v[0] - v[1]
        if op == "mul":
            return v[0] * v[1]
        if op == "neg":
            return -v[0]
        if op == "div":
            if v[1] == 0:
                if v[0] == 0 or v[0] != v[0]:
                    return nan
                neg = (math.copysign(1, v[0]) < 0) != (math.copysign(1, v[1]) < 0)
                return -inf if neg else inf
            return v[0] / v[1]
    except OverflowError:
        return None
    return None


class PanicExc(Exception):
    def __init__(self, msg, where):
        self.msg = msg
        self.where = where


class PathEnd(Exception):
    """path abandoned: infeasible / assume failed / loop cut"""

    def __init__(self, why):
        self.why = why


class Restart(Exception):
    pass


BOOLS = ("lt", "le", "feq", "and", "or", "not", "true", "false", "bvar", "isnan", "isfinite", "isinf", "signbit")


class Prefix(list):
    """a list of decisions and the abstract state it starts from (mode tot)"""
    state = None
    snap = None


class Obligation:
    __slots__ = ("kind", "id", "args", "pc", "where", "fix")

    def __init__(self, kind, id, args, pc, where=""):
        self.kind = kind
        self.id = id
        self.args = args
        self.pc = pc
        self.where = where


class PathResult:
    def __init__(self):
        self.status = "done"
        self.why = ""
        self.pc = []
        self.obls = []
        self.inputs = []
        self.decisions = []
        self.fix = []


class Exec:
    def __init__(self, prog, mode="real", solver=None, max_paths=4000, uf=(), time_limit=600, max_iter=200, loop_mode="unroll"):
        self.loop_mode = loop_mode
        import models

        self.prog = prog
        self.mode = mode
        self.solver = solver
        self.max_paths = max_paths
        self.uf = uf
        self.models = models
        self.havoc_loops = set()
        self.bad_deps = set()
        self.flag_loops = {}
        self.loop_steps = {}
        self.functions_run = {}
        self.time_limit = time_limit
        self.max_iter = max_iter
        self.stats = {"branches": 0, "forced": 0}
        # mode tot: abstract states seen, the edges between them, the assertions passed, the loops entered
        self.tot = mode == "tot"
        self.tot_edges = {}
        self.tot_shapes = {}
        self.tot_sites = set()
        self.tot_loops = {}
        self.mdepth = 0

    # ------------------------------------------------------------ exploration
    def explore(self, root):
        key = self.prog.roots[root]
        t0 = time.time()
        while True:
            results = []
            work = [Prefix()]
            self.loop_steps = {}
            try:
                while work:
                    prefix = work.pop()
                    self.prefix = prefix
                    self.pending = []
                    r = self.run_path(key)
                    results.append(r)
                    work.extend(self.pending)
                    if len(results) > self.max_paths:
                        raise Unsupported(f"more than {self.max_paths} paths")
                    if time.time() - t0 > self.time_limit:
                        raise Unsupported("exploration time limit")
                return results
            except Restart:
                continue

    def run_path(self, key):
        self.res = PathResult()
        self.pc = self.res.pc
        self.known = {}
        self.decisions = []
        self.fresh_n = 0
        self.depth = 0
        self.fixvars = []
        self.havoc_memo = {}
        self.stack = []
        self.mdepth = 0
        self.tot_cur = self.tot_snap = None
        try:
            if self.tot and self.prefix.snap is not None:
                self.tot_cur = self.prefix.state
                self.tot_snap = self.prefix.snap
                self.resume(self.prefix.snap)
            else:
                self.call(key, [], [])
        except PanicExc as p:
            self.res.status = "panic"
            self.res.why = f"{p.msg} at {p.where}"
            self.res.obls.append(Obligation("unreachable", "no panic: " + p.msg[:80], (), list(self.pc), p.where))
        except PathEnd as p:
            self.res.status = "end"
            self.res.why = p.why
        self.res.decisions = self.decisions
        self.res.fix = self.fixvars
        return self.res

    def fresh(self, hint, sort="var"):
        self.fresh_n += 1
        return mk(sort, f"{hint}!{self.fresh_n}")

    # ------------------------------------------------------------ decisions
    def decide_n(self, n, tag=""):
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(1, n):
                self.fork(k)
        self.decisions.append(d)
        return d

    def fork(self, d):
        p = Prefix(self.decisions + [d])
        if self.tot:
            p.state, p.snap = self.tot_cur, self.tot_snap
        self.pending.append(p)

    def tot_step(self, fr, bi):
        """mode tot, on entry to a block where control flow meets: has this abstract state (the code
        still to run, the constants, the shape of the data; any float that is not a constant is
        'some float') been explored already?"""
        if len(self.decisions) < len(self.prefix) or not self.decisions or self.mdepth:
            return
        fr["bi"] = bi
        shape, consts = self.tot_state()
        prev = self.tot_shapes.get(shape)
        if prev is None:
            self.tot_shapes[shape] = consts
        elif prev != consts:
            # widening: a constant that differs from the one an earlier path brought here becomes 'some float'
            wide = [x if x == y else None for x, y in zip(prev, consts)]
            self.tot_shapes[shape] = wide
            self.tot_widen([x is None for x in wide])
            consts = wide
        st = shape + hashlib.blake2b(repr(consts).encode(), digest_size=16).digest()
        old = st in self.tot_edges
        self.tot_edges.setdefault(self.tot_cur, set()).add(st)
        if old:
            raise PathEnd("merged")
        self.tot_edges.setdefault(st, set())
        self.tot_cur = st
        # from here on, paths are re-run from a copy of this state
        self.tot_snap = (self.copy_stack(self.stack), list(self.res.inputs))
        self.decisions = []
        self.prefix = Prefix()

    def copy_stack(self, stack):
        cells = {}
        static = {id(c) for c in self.prog.alloc_cells.values()}

        def cell(c):
            if id(c) in static:
                return c
            n = cells.get(id(c))
            if n is None:
                n = cells[id(c)] = Cell(None, c.name)
                n.v = val(c.v)
            return n

        def val(v):
            if isinstance(v, Agg):
                f = [val(x) for x in v.f]
                return v if all(x is y for x, y in zip(f, v.f)) else Agg(v.ty, v.variant, f)
            if isinstance(v, Seq):
                f = [val(x) for x in v.f]
                return v if all(x is y for x, y in zip(f, v.f)) else Seq(f)
            if isinstance(v, Ref):
                return Ref(cell(v.cell), v.path, v.rng, v.vt)
            return v

        out = []
        for fr in stack:
            n = dict(fr)
            n["locs"] = [cell(c) for c in fr["locs"]]
            n["active"] = [list(a) for a in fr["active"]]
            n["visits"] = dict(fr["visits"])
            out.append(n)
        return out

    def resume(self, snap):
        self.stack = self.copy_stack(snap[0])
        self.res.inputs = list(snap[1])
        self.depth = len(self.stack)
        r, first = None, True
        while self.stack:
            fr = self.stack[-1]
            bi = fr["bi"]
            if not first:
                t = fr["f"]["body"]["blocks"][bi]["t"]
                if t[0] != "call" or t[4] is None:
                    raise Unsupported("resume")
                self.store(fr, t[3], r)
                bi = t[4]
            first = False
            r = self.run_frame(fr, bi)

    def tot_widen(self, mask):
        """replace the float leaves selected by mask (in the order of tot_state) by an arbitrary float"""
        done = {id(c) for c in self.prog.alloc_cells.values()}
        top = mk("var", "some float")
        it = iter(mask)

        def cell(c):
            if id(c) not in done:
                done.add(id(c))
                c.v = val(c.v)

        def val(v):
            if isinstance(v, E):
                return top if v.op[0] != "i" and v.op not in BOOLS and next(it) else v
            if isinstance(v, (Agg, Seq, Mat)):
                f = [val(x) for x in v.f]
                return Agg(v.ty, v.variant, f) if isinstance(v, Agg) else Seq(f) if isinstance(v, Seq) else Mat(v.r, v.c, f)
            if isinstance(v, self.models.It):
                for k in sorted(v.__dict__):
                    x = v.__dict__[k]
                    if isinstance(x, Cell):
                        cell(x)
                    elif isinstance(x, (list, tuple)):
                        v.__dict__[k] = [val(y) for y in x]
                    else:
                        v.__dict__[k] = val(x)
            if isinstance(v, Ref):
                cell(v.cell)
            return v

        for i, fr in enumerate(self.stack):
            for j in sorted(self.tot_live(i)):
                cell(fr["locs"][j])

    def tot_live(self, i):
        fr = self.stack[i]
        live = self.prog.live(fr["key"])
        if i == len(self.stack) - 1:
            return live[fr["bi"]]
        t = fr["f"]["body"]["blocks"][fr["bi"]]["t"]
        return set(live[t[4]]) | {t[3][0]} if t[0] == "call" and t[4] is not None else set(range(len(fr["locs"])))

    def tot_state(self):
        ids, out, consts = {}, [], []

        static = {id(c): k for k, c in self.prog.alloc_cells.items()}

        def cell(c):
            if id(c) in static:
                out.append(("S", static[id(c)]))
                return
            k = ids.get(id(c))
            if k is not None:
                out.append(("c", k))
                return
            ids[id(c)] = len(ids)
            out.append("n")
            val(c.v)

        def val(v):
            if v is None:
                out.append("-")
            elif isinstance(v, E):
                if v.op[0] == "i" or v.op in BOOLS:
                    out.append("TI")
                else:
                    out.append("F")
                    consts.append(v.args[0] if v.op == "f" else None)
            elif isinstance(v, (bool, int)):
                out.append((type(v).__name__, v))
            elif isinstance(v, Agg):
                out.append(("a", v.ty, v.variant if not isinstance(v.variant, E) else "T", len(v.f)))
                for x in v.f:
                    val(x)
            elif isinstance(v, Seq):
                out.append(("s", len(v.f)))
                for x in v.f:
                    val(x)
            elif isinstance(v, Ref):
                out.append(("r", v.path, v.rng, v.vt))
                cell(v.cell)
            elif isinstance(v, Str):
                out.append(("str", v.s))
            elif isinstance(v, FnVal):
                out.append(("fn", v.inst))
            elif isinstance(v, Opaque):
                out.append(("o", v.tag))
            elif isinstance(v, Mat):
                out.append(("m", v.r, v.c))
                for x in v.f:
                    val(x)
            elif isinstance(v, self.models.It):
                out.append(("it", type(v).__name__))
                for k in sorted(v.__dict__):
                    x = v.__dict__[k]
                    if isinstance(x, Cell):
                        cell(x)
                    elif isinstance(x, (list, tuple)):
                        out.append(len(x))
                        for y in x:
                            val(y)
                    else:
                        val(x)
            else:
                raise Unsupported("abstract state of " + type(v).__name__)

        for i, fr in enumerate(self.stack):
            out.append((fr["key"], fr["bi"]))
            for j in sorted(self.tot_live(i)):
                out.append(j)
                cell(fr["locs"][j])
        return hashlib.blake2b(repr(out).encode(), digest_size=16).digest(), consts

    def lookup(self, c):
        if self.tot:
            return None
        k = self.known.get(c)
        if k is not None:
            return k
        if c.op == "not":
            k = self.known.get(c.args[0])
            return None if k is None else (not k)
        if c.op in ("lt", "le"):
            a, b = c.args
            # a<b known true => le(b,a) false, etc. (reals / ordered)
            if c.op == "lt":
                if self.known.get(mk("lt", b, a)) is True or self.known.get(mk("feq", a, b)) is True:
                    return False
                if self.mode != "tot" and self.known.get(mk("le", b, a)) is False:
                    return True
                if self.known.get(mk("le", b, a)) is True:
                    return False
                if self.known.get(mk("le", a, b)) is False:
                    return False
            else:
                if self.known.get(mk("lt", a, b)) is True or self.known.get(mk("feq", a, b)) is True:
                    return True
                if self.known.get(mk("lt", b, a)) is True:
                    return False
                if self.mode != "tot" and self.known.get(mk("lt", b, a)) is False:
                    return True
        return None

    def assume_c(self, c, val):
        if c is True or c is False:
            if c != val:
                raise PathEnd("infeasible")
            return
        if c.op == "not":
            return self.assume_c(c.args[0], not val)
        if c.op == "and" and val:
            self.assume_c(c.args[0], True)
            self.assume_c(c.args[1], True)
            return
        if c.op == "or" and not val:
            self.assume_c(c.args[0], False)
            self.assume_c(c.args[1], False)
            return
        if self.tot:
            return
        k = self.lookup(c)
        if k is not None:
            if k != val:
                raise PathEnd("infeasible")
            return
        self.known[c] = val
        if c.op == "feq":
            self.known[mk("feq", c.args[1], c.args[0])] = val
        self.pc.append((c, val))

    def branch(self, c):
        """decide a condition; forks"""
        if c is True or c is False:
            return c
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if c.op == "not":
            return not self.branch(c.args[0])
        if c.op == "and":
            return self.branch(c.args[0]) and self.branch(c.args[1])
        if c.op == "or":
            return self.branch(c.args[0]) or self.branch(c.args[1])
        k = self.lookup(c)
        if k is not None:
            return k
        g = self.solver.ground(c) if self.solver and not self.tot else None
        if g is not None:
            self.known[c] = g
            return g
        self.stats["branches"] += 1
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            ft = self.feasible(c, True)
            ff = self.feasible(c, False) if ft else True
            if ft and ff:
                self.fork(False)
                d = True
            else:
                self.stats["forced"] += 1
                d = ft
        self.decisions.append(d)
        self.note_loop_branch()
        self.assume_c(c, d)
        return d

    def feasible(self, c, val):
        if self.solver is None or self.mode == "tot":
            return True
        return self.solver.feasible(self.pc + [(c, val)])

    # ------------------------------------------------------------ loops
    def note_loop_branch(self):
        pass

    # ------------------------------------------------------------ calls
    def call(self, key, args, argtys, where=""):
        f = self.prog.funcs.get(key)
        if f is None:
            raise Unsupported("no function " + key)
        if key.startswith("virtual#"):
            return self.call_virtual(key, args, where)
        m = self.models.find(f)
        if m is not None:
            self.mdepth += 1
            try:
                return m(self, f, args, argtys, where)
            finally:
                self.mdepth -= 1
        for pat in self.uf:
            if re.search(pat, f["def"]):
                return self.models.uninterpreted(self, f, args, argtys)
        if "body" not in f:
            raise Unsupported("no model for " + f["name"] + " (def " + f["def"] + ")")
        return self.run_body(key, f, args)

    def call_virtual(self, key, args, where):
        idx = int(key.split("#")[1])
        r = args[0]
        r0 = r
        while isinstance(r, Ref) and r.vt is None:
            # &Box<dyn T>
            r = self.get(r.cell, r.path)
        if not isinstance(r, Ref):
            raise Unsupported("virtual call on " + repr(r0))
        if r.vt not in self.prog.vtables:
            raise Unsupported("virtual call through Any")
        ent = self.prog.vtables[r.vt]["entries"][idx]
        return self.call(ent["inst"], [Ref(r.cell, r.path)] + list(args[1:]), [None] * len(args), where)

    def call_closure(self, c, args):
        v = c
        while isinstance(v, Ref):
            v = self.get(v.cell, v.path)
        if isinstance(v, FnVal):
            return self.call(v.inst, list(args), [None] * len(args))
        if not isinstance(v, Agg):
            raise Unsupported("call of " + repr(v))
        t = self.prog.types[v.ty]
        inst = t["inst"]
        f = self.prog.funcs[inst]
        if "body" not in f:
            raise Unsupported("closure without body " + f["name"])
        selfty = self.prog.types[f["body"]["locals"][1]]
        if selfty["k"] == "ref":
            s = c if isinstance(c, Ref) else Ref(Cell(c, "closure"))
            # peel to the reference that directly points to the closure
            while isinstance(self.get(s.cell, s.path), Ref):
                s = self.get(s.cell, s.path)
        else:
            s = v
        return self.run_body(inst, f, [s] + list(args))

    def run_body(self, key, f, args):
        body = f["body"]
        if f["krate"] == "geokit":
            self.functions_run[f["def"]] = f["span"]
        argc = body["argc"]
        if len(args) != argc or ("{closure" in f["def"] and len(args) == 2):
            # rust-call ABI: (closure, (args...))
            if len(args) == 2 and isinstance(args[1], Agg) and self.is_tuple(args[1]) and argc == 1 + len(args[1].f):
                if not (argc == 2 and self.prog.types[body["locals"][2]]["k"] == "tuple" and self.same_ty(args[1].ty, body["locals"][2])):
                    args = [args[0]] + list(args[1].f)
            elif argc > len(args) and args and isinstance(args[-1], Agg) and self.is_tuple(args[-1]):
                args = list(args[:-1]) + list(args[-1].f)
            elif argc == 2 and f["kind"] == "Shim" and len(args) != 2:
                args = [args[0], Agg(None, 0, args[1:])]
        if len(args) != argc:
            raise Unsupported(f"arity {f['name']} {len(args)} {argc}")
        self.depth += 1
        if self.depth > 300:
            raise Unsupported("recursion")
        locs = [Cell(None, f"_{i}") for i in range(len(body["locals"]))]
        for i, a in enumerate(args):
            locs[i + 1].v = a
        loops = self.prog.loops(key)
        joins = self.prog.joins(key) if self.tot else ()
        # active: stack of [header, blocks, sym_exit]
        fr = {"key": key, "f": f, "locs": locs, "loops": loops, "joins": joins, "active": [], "visits": {}, "havoced": {}}
        self.stack.append(fr)
        return self.run_frame(fr, 0)

    def run_frame(self, fr, bi):
        key, f, locs, loops, joins, active, visits = (fr[k] for k in ("key", "f", "locs", "loops", "joins", "active", "visits"))
        body = f["body"]
        blocks = body["blocks"]
        try:
            while True:
                # loop bookkeeping
                while active and bi not in active[-1][1]:
                    lk, m = (key, active[-1][0]), active[-1][4] if len(active[-1]) > 4 else None
                    if m is not None:
                        # exits after which a truth value of the previous iteration is looked at are
                        # taken from the first iteration or after a whole one, the others from any state
                        fl = fr["bi"] in self.flag_loops[lk] or "*" in self.flag_loops[lk]
                        if fl == (m == "any"):
                            raise PathEnd("loop cut")
                    if lk[1] in fr["havoced"]:
                        fr["havoced"][lk[1]][1]["exit"] = fr["bi"]
                    active.pop()
                if bi in loops:
                    if active and active[-1][0] == bi:
                        # back edge
                        if (key, bi) in self.havoc_loops:
                            m = active[-1][4] if len(active[-1]) > 4 else None
                            if m in (None, "any"):
                                self.record_step(fr, bi)
                                if m is not None and not self.flag_loops[(key, bi)]:
                                    raise PathEnd("loop cut")
                            if m != "any":
                                raise PathEnd("loop cut")
                            active[-1][4] = "last"
                        visits[bi] += 1
                        if self.loop_mode == "havoc":
                            # every iteration took an undetermined decision somewhere below: abstract the loop
                            if len(self.decisions) > active[-1][2]:
                                active[-1][3] += 1
                                if active[-1][3] > 8:
                                    self.havoc_loops.add((key, bi))
                                    raise Restart()
                            active[-1][2] = len(self.decisions)
                        if visits[bi] > self.max_iter:
                            raise Unsupported(f"loop in {f['name']} exceeds {self.max_iter} iterations")
                    else:
                        active.append([bi, loops[bi], len(self.decisions), 0])
                        visits[bi] = 0
                        if (key, bi) in self.flag_loops:
                            # left in the first iteration, or in the one after some iteration
                            first = self.decide_n(2) == 0
                            active[-1].append("first" if first else "any")
                            if not first:
                                self.havoc(fr, bi, body)
                        elif (key, bi) in self.havoc_loops:
                            self.havoc(fr, bi, body)
                if bi in joins:
                    self.tot_step(fr, bi)
                    if bi in loops:
                        self.tot_loops[(f["def"], blocks[bi]["l"])] = True
                blk = blocks[bi]
                fr["bi"] = bi
                for s in blk["s"]:
                    self.stmt(fr, s)
                t = blk["t"]
                k = t[0]
                if k == "goto":
                    bi = t[1]
                elif k == "switch":
                    bi = self.switch(fr, t)
                elif k == "return":
                    return locs[0].v
                elif k == "call":
                    where = f"{f['span'].rsplit(':',1)[0]}:{blk['l']}"
                    r = self.do_call(fr, t, where)
                    if t[4] is None:
                        raise Unsupported("diverging call returned " + where)
                    self.store(fr, t[3], r)
                    bi = t[4]
                elif k == "drop":
                    bi = t[2]
                elif k == "assert":
                    c = self.operand(fr, t[1])
                    if self.tot:
                        self.tot_sites.add((f["def"], blk["l"], t[3]))
                    if not isinstance(c, bool):
                        c = self.branch(c)
                    if c != t[2]:
                        raise PanicExc(t[3], f"{f['span'].rsplit(':',1)[0]}:{blk['l']}")
                    bi = t[4]
                elif k == "unreachable":
                    raise PathEnd("unreachable")
                else:
                    raise Unsupported("terminator " + k)
        finally:
            self.stack.pop()
            self.depth -= 1

    def is_tuple(self, a):
        return a.ty is None or self.prog.types[a.ty]["k"] == "tuple"

    def same_ty(self, a, b):
        if a is None or b is None:
            return False
        return a == b or self.prog.types[a]["s"] == self.prog.types[b]["s"]

    def do_call(self, fr, t, where):
        ft = self.prog.types[t[5]]
        args = [self.operand(fr, a) for a in t[2]]
        if ft["k"] == "fndef":
            if ft["inst"] is None:
                raise Unsupported("unresolved " + ft["s"])
            return self.call(ft["inst"], args, t[6], where)
        fv = self.operand(fr, t[1])
        if isinstance(fv, FnVal):
            return self.call(fv.inst, args, t[6], where)
        return self.call_closure(fv, args)

    def switch(self, fr, t):
        v = self.operand(fr, t[1])
        ty = self.prog.types[t[4]]
        if isinstance(v, bool):
            iv = int(v)
        elif isinstance(v, int):
            iv = v
            if ty["k"] == "int" and iv < 0:
                iv += 1 << int_bits(ty["s"])
        elif isinstance(v, E):
            if ty["k"] == "bool":
                b = self.loop_branch(fr, v)
                iv = int(b)
            else:
                for val, tgt in t[2]:
                    if self.loop_branch(fr, mk("ieq", v, int(val))):
                        return tgt
                return t[3]
        else:
            raise Unsupported("switch on " + repr(v))
        for val, tgt in t[2]:
            if int(val) == iv:
                return tgt
        return t[3]

    def loop_branch(self, fr, c):
        """branch; if it happens inside a not yet abstracted loop and decides whether the loop goes
        on, the loop gets a contract (havoc) and exploration restarts"""
        if isinstance(c, bool):
            return c
        if self.lookup(c) is not None:
            return self.lookup(c)
        if self.fixvars:
            # a truth value left by an earlier iteration: keep that iteration
            bv = [n for n in topo([c]) if n.op == "bvar"]
            for info in self.fixvars if bv else ():
                if any(x is n or x == n for x, _ in info["vars"] for n in bv):
                    ex = info.get("exit", fr["bi"] if fr["havoced"].get(info["key"][1], (0, 0))[1] is info else "*")
                    s = self.flag_loops.setdefault(info["key"], set())
                    if ex not in s and "*" not in s:
                        s.add(ex)
                        raise Restart()
        n0 = len(self.decisions)
        before = len(self.pending)
        r = self.branch(c)
        if self.loop_mode == "havoc" and len(self.decisions) > n0 and fr["active"]:
            h, blks = fr["active"][-1][0], fr["active"][-1][1]
            if (fr["key"], h) not in self.havoc_loops:
                # does one of the targets leave the loop?
                t = fr["f"]["body"]["blocks"][fr["bi"]]["t"]
                if t[0] == "switch":
                    tg = successors(t)
                    if any(x not in blks for x in tg) and any(x in blks for x in tg) and not self.panics_only(fr, [x for x in tg if x not in blks]):
                        if self.forked_here(n0):
                            self.havoc_loops.add((fr["key"], h))
                            raise Restart()
        return r

    def forked_here(self, i):
        # an undetermined decision (not forced)
        return True

    def panics_only(self, fr, targets):
        return False

    def assigned_in(self, body, blks):
        out = set()
        for b in blks:
            for s in body["blocks"][b]["s"]:
                if s[0] == "assign":
                    out.add(s[1][0])
                    if s[2][0] in ("ref", "addrof") and (s[2][0] == "addrof" or s[2][2]):
                        out.add(s[2][1][0])
                elif s[0] == "setdiscr":
                    out.add(s[1][0])
            t = body["blocks"][b]["t"]
            if t[0] == "call":
                out.add(t[3][0])
        return out

    def havoc(self, fr, h, body):
        blks = fr["loops"][h]
        locs = fr["locs"]
        ids = sorted(self.assigned_in(body, blks))
        rec = []
        # the loop is deterministic: its state after any number of iterations is a function of the
        # loop, the state it starts from and that number, so equal starts share the same state
        try:
            start = []
            for c in locs:
                if c.v is not None:
                    self.models.flat(self, c.v, start)
                else:
                    start.append("-")
            skey = (fr["key"], h) + tuple(x if isinstance(x, E) else str(x) for x in start)
        except (Unsupported, RecursionError):
            skey = None
        memo = self.havoc_memo.get(skey) if skey is not None else None
        live = [i for i in ids if locs[i].v is not None]
        if memo is not None:
            fresh, rec, deps = memo
        else:
            fresh = []
            for i in live:
                tag = f"fix_{fr['f']['def'].split('::')[-1]}_{h}_{i}"
                fresh.append(self.havoc_val(locs[i].v, tag, rec))
            deps = self.loop_deps((fr["key"], h), rec)
            if deps:
                m = {rec[j][0]: g for j, (i, e, g) in deps.items()}
                fresh = [self.subst_val(v, m) for v in fresh]
            if skey is not None:
                self.havoc_memo[skey] = (fresh, rec, deps)
        for i, v in zip(live, fresh):
            locs[i].v = v
        info = {"key": (fr["key"], h), "vars": rec, "fr": fr["f"]["def"], "npc": len(self.pc), "ids": live, "deps": deps, "start": fresh}
        fr["havoced"][h] = (live, info)
        self.fixvars.append(info)

    def loop_deps(self, key, rec):
        """candidate loop invariants: a loop variable that starts as a function of another one stays
        that function of it (checked when the loop comes around, see record_step)"""
        deps = {}
        base = [j for j, (x, e) in enumerate(rec) if x.op == "var" and isinstance(e, E) and e.op != "f"]
        for j in base:
            x, e = rec[j]
            if (key, j) in self.bad_deps:
                continue
            sub = set(topo([e]))
            for i in base:
                ei = rec[i][1]
                if i == j or i in deps or ei not in sub or (ei is e and i > j):
                    continue
                deps[j] = (i, e, subst(e, {ei: rec[i][0]}))
                break
        return deps

    def subst_val(self, v, m):
        if isinstance(v, E):
            return subst(v, m)
        if isinstance(v, Agg):
            return Agg(v.ty, v.variant, [self.subst_val(x, m) for x in v.f])
        return v

    def scalars(self, old, new, out):
        """the scalars of new in the order of havoc_val's; whatever havoc_val keeps must not change"""
        if isinstance(old, Agg):
            if new is None:
                out.extend([None] * self.count(old))
                return
            if not isinstance(new, Agg) or new.variant != old.variant or len(new.f) != len(old.f):
                raise Unsupported("a loop changes the variant of a value")
            for x, y in zip(old.f, new.f):
                self.scalars(x, y, out)
        elif isinstance(old, (E, bool, int)):
            out.append(new)
        elif new is None or new is old:
            pass
        elif isinstance(old, Ref) and isinstance(new, Ref) and new.cell is old.cell and new.path == old.path and new.rng == old.rng:
            pass
        elif isinstance(old, Seq) and isinstance(new, Seq) and len(old.f) == len(new.f) and all(x is y for x, y in zip(old.f, new.f)):
            pass
        elif isinstance(old, (Opaque, Str)):
            pass
        else:
            raise Unsupported("a loop changes " + repr(old)[:60])

    def count(self, v):
        if isinstance(v, Agg):
            return sum(self.count(x) for x in v.f)
        return 1 if isinstance(v, (E, bool, int)) else 0

    def havoc_val(self, v, tag, rec):
        if isinstance(v, E) and v.op[0] != "i" and not v.op in ("lt", "le", "feq", "and", "or", "not"):
            x = self.fresh(tag)
            rec.append((x, v))
            return x
        if isinstance(v, bool):
            x = self.fresh(tag, "bvar")
            rec.append((x, v))
            return x
        if isinstance(v, int) or (isinstance(v, E) and v.op[0] == "i"):
            x = self.fresh(tag, "ivar")
            rec.append((x, v))
            return x
        if isinstance(v, Agg):
            return Agg(v.ty, v.variant, [self.havoc_val(x, tag, rec) for x in v.f])
        return v

    def record_step(self, fr, h):
        ids, info = fr["havoced"][h]
        out = []
        for i, v in zip(ids, info["start"]):
            self.scalars(v, fr["locs"][i].v, out)
        for j, (i, e, g) in info["deps"].items():
            if out[j] is None or not isinstance(out[j], E):
                continue
            want = subst(g, {info["vars"][i][0]: out[i]}) if isinstance(out[i], E) else None
            if want is None or not self.same(want, out[j]):
                self.bad_deps.add((info["key"], j))
                raise Restart()
        info["now"] = out
        self.loop_steps.setdefault(info["key"], []).append((info, list(self.pc), out))

    def same(self, x, y):
        if x is y:
            return True
        if getattr(self, "canon", None) is None:
            from prove import PathProver
            self.canon = PathProver([], [])
        try:
            nm = self.canon.shnm
            return nm.to_expr(nm.nf(self.canon.shallow(x))) is nm.to_expr(nm.nf(self.canon.shallow(y)))
        except Exception:
            return False

    # ------------------------------------------------------------ memory
    def get(self, cell, path):
        v = cell.v
        for i in path:
            if isinstance(v, Ref):
                continue
            if isinstance(v, (Agg, Seq, Mat)):
                try:
                    v = v.f[i]
                except IndexError:
                    raise Unsupported("index outside value (checked earlier?)")
            else:
                raise Unsupported(f"projection {i} of {v!r}")
        return v

    def put(self, cell, path, val):
        cell.v = self._put(cell.v, path, val)

    def _put(self, v, path, val):
        if not path:
            return val
        i = path[0]
        if isinstance(v, Agg):
            l = list(v.f)
            l[i] = self._put(l[i], path[1:], val)
            return Agg(v.ty, v.variant, l)
        if isinstance(v, Seq):
            l = list(v.f)
            l[i] = self._put(l[i], path[1:], val)
            return Seq(l)
        if isinstance(v, Mat):
            l = list(v.f)
            l[i] = self._put(l[i], path[1:], val)
            return Mat(v.r, v.c, l)
        raise Unsupported(f"store into {v!r}")

    def resolve(self, fr, pl):
        """-> cell, path, rng, vt"""
        cell = fr["locs"][pl[0]]
        path = ()
        rng = None
        vt = None
        for p in pl[1]:
            k = p[0]
            if k == "deref":
                r = self.get(cell, path)
                if not isinstance(r, Ref):
                    raise Unsupported("deref of " + repr(r))
                cell, path, rng, vt = r.cell, r.path, r.rng, r.vt
            elif k == "field":
                v = self.get(cell, path)
                if isinstance(v, Ref) or isinstance(v, Opaque) and v.tag == "uninit":
                    continue  # MaybeUninit / Box / Unique / NonNull wrappers
                path = path + (p[1],)
                rng = None
            elif k == "downcast" or k == "opaque":
                pass
            elif k == "index":
                i = fr["locs"][p[1]].v
                i = self.concrete_int(i)
                path = path + ((rng[0] if rng else 0) + i,)
                rng = None
            elif k == "cindex":
                n = self.seq_len(self.get(cell, path), rng)
                i = n - p[1] if p[3] else p[1]
                path = path + ((rng[0] if rng else 0) + i,)
                rng = None
            elif k == "subslice":
                n = self.seq_len(self.get(cell, path), rng)
                b = rng[0] if rng else 0
                rng = (b + p[1], b + (n - p[2] if p[3] else p[2]))
            else:
                raise Unsupported("projection " + k)
        return cell, path, rng, vt

    def concrete_int(self, i):
        if isinstance(i, bool):
            return int(i)
        if isinstance(i, int):
            return i
        raise Unsupported("symbolic index")

    def seq_len(self, v, rng):
        if rng:
            return rng[1] - rng[0]
        if isinstance(v, (Agg, Seq, Mat)):
            return len(v.f)
        if isinstance(v, Str):
            return len(v.s.encode())
        raise Unsupported("len of " + repr(v))

    def load(self, fr, pl):
        cell, path, rng, vt = self.resolve(fr, pl)
        return self.get(cell, path)

    def store(self, fr, pl, v):
        cell, path, rng, vt = self.resolve(fr, pl)
        self.put(cell, path, v)

    def deref(self, r):
        if not isinstance(r, Ref):
            raise Unsupported("deref " + repr(r))
        return self.get(r.cell, r.path)

    def elems(self, r):
        """elements of a slice/array/vec reference -> list of (cell, path)"""
        v = self.get(r.cell, r.path)
        while isinstance(v, Ref):
            r = v
            v = self.get(r.cell, r.path)
        n = self.seq_len(v, r.rng)
        b = r.rng[0] if r.rng else 0
        return [Ref(r.cell, r.path + (b + i,)) for i in range(n)]

    # ------------------------------------------------------------ statements
    def stmt(self, fr, s):
        if s[0] == "assign":
            v = self.rvalue(fr, s[2])
            self.store(fr, s[1], v)
        elif s[0] == "live":
            fr["locs"][s[1]].v = None
        elif s[0] == "setdiscr":
            cell, path, _, _ = self.resolve(fr, s[1])
            v = self.get(cell, path)
            self.put(cell, path, Agg(v.ty, s[2], v.f))
        else:
            raise Unsupported("statement " + str(s[:2]))

    def operand(self, fr, o):
        k = o[0]
        if k in ("copy", "move"):
            v = self.load(fr, o[1])
            if v is None:
                raise Unsupported("uninitialised read")
            return v
        if k == "const":
            return self.const(o[1])
        if k == "rtcheck":
            return False
        raise Unsupported(k)

    def const(self, c):
        if "__v" in c:
            return c["__v"]
        t = self.prog.types[c["ty"]]
        if c["k"] == "zst":
            if t["k"] == "fndef":
                v = FnVal(t["inst"])
            else:
                v = Agg(c["ty"], 0, [self.zst_field(f) for f in (t.get("variants") or [{"fields": []}])[0]["fields"]] if t["k"] == "adt" else [])
        elif c["k"] == "alloc":
            data = bytes.fromhex(c["bytes"])
            ptrs = {o: i for o, i in c["ptrs"]}
            v = self.prog.decode(c["ty"], data, ptrs)
            if isinstance(v, Ref):
                return v
        else:
            raise Unsupported("constant " + c.get("s", ""))
        c["__v"] = v
        return v

    def zst_field(self, f):
        return Agg(f[1], 0, [])

    def rvalue(self, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k in ("ref", "addrof", "reborrow"):
            cell, path, rng, vt = self.resolve(fr, r[1])
            return Ref(cell, path, rng, vt)
        if k == "bin":
            return self.binop(r[1], self.operand(fr, r[2]), self.operand(fr, r[3]), fr, r)
        if k == "checked":
            a, b = self.operand(fr, r[2]), self.operand(fr, r[3])
            ty = self.int_ty(fr, r[2], r[3])
            v = self.intop(r[1], a, b)
            if isinstance(v, int) and ty:
                lo, hi = int_range(ty)
                ov = not (lo <= v <= hi)
                if ov:
                    v = wrap_int(v, ty)
                return Agg(None, 0, [v, ov])
            return Agg(None, 0, [v, mk("bvar", "overflow") if self.tot else False])
        if k == "un":
            a = self.operand(fr, r[2])
            if r[1] == "Not":
                if isinstance(a, bool) or (isinstance(a, E)):
                    return lnot(a)
                ty = self.int_ty(fr, r[2], None)
                return wrap_int(~a, ty)
            if r[1] == "Neg":
                if isinstance(a, E):
                    if a.op[0] == "i" and a.op != "ideal":
                        return mk("isub", 0, a)
                    return self.farith("neg", a)
                return -a
            if r[1] == "PtrMetadata":
                return self.seq_len(self.deref_all(a), a.rng)
            raise Unsupported("unop " + r[1])
        if k == "cast":
            return self.cast(fr, r)
        if k == "discr":
            v = self.load(fr, r[1])
            if isinstance(v, Ref):
                raise Unsupported("discr of ref")
            if not isinstance(v, Agg):
                raise Unsupported("discr of " + repr(v))
            t = self.prog.types[r[2]] if r[2] is not None else self.prog.types[v.ty]
            if isinstance(v.variant, E):
                return v.variant
            if t.get("name", "").endswith("cmp::Ordering"):
                return v.variant - 1
            return int(t["variants"][v.variant]["discr"]) if t.get("variants") else 0
        if k == "len":
            cell, path, rng, vt = self.resolve(fr, r[1])
            return self.seq_len(self.get(cell, path), rng)
        if k == "tuple":
            return Agg(None, 0, [self.operand(fr, o) for o in r[1]])
        if k == "array":
            return Agg(None, 0, [self.operand(fr, o) for o in r[2]])
        if k == "adt":
            if r[4] is not None:
                raise Unsupported("union")
            t = self.prog.types[r[1]]
            fs = [self.operand(fr, o) for o in r[3]]
            return Agg(r[1], r[2], fs)
        if k == "closure":
            return Agg(r[1], 0, [self.operand(fr, o) for o in r[2]])
        if k == "repeat":
            v = self.operand(fr, r[1])
            return Agg(None, 0, [v] * r[2])
        if k == "rawptr":
            a = self.operand(fr, r[2][0])
            b = self.operand(fr, r[2][1])
            if isinstance(a, Ref) and isinstance(b, int):
                st = a.rng[0] if a.rng else 0
                return Ref(a.cell, a.path, (st, st + b), a.vt)
            return a
        raise Unsupported("rvalue " + k)

    def deref_all(self, r):
        v = self.get(r.cell, r.path)
        return v

    def int_ty(self, fr, a, b):
        for o in (a, b):
            if o is None:
                continue
            if o[0] == "const":
                return self.prog.types[o[1]["ty"]]["s"]
            if o[0] in ("copy", "move"):
                loc, proj = o[1]
                if not proj:
                    return self.prog.types[fr["f"]["body"]["locals"][loc]]["s"]
                if proj[-1][0] == "field":
                    return self.prog.types[proj[-1][2]]["s"]
        return "usize"

    def intop(self, op, a, b):
        if isinstance(a, E) or isinstance(b, E):
            m = {"Add": "iadd", "Sub": "isub", "Mul": "imul", "AddUnchecked": "iadd", "SubUnchecked": "isub", "MulUnchecked": "imul"}
            if op in m:
                return mk(m[op], a, b)
            raise Unsupported("symbolic int " + op)
        if op.startswith("Add"):
            return a + b
        if op.startswith("Sub"):
            return a - b
        if op.startswith("Mul"):
            return a * b
        if op == "Div":
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if op == "Rem":
            q = abs(a) % abs(b)
            return -q if a < 0 else q
        if op == "BitAnd":
            return a & b
        if op == "BitOr":
            return a | b
        if op == "BitXor":
            return a ^ b
        if op.startswith("Shl"):
            return a << b
        if op.startswith("Shr"):
            return a >> b
        raise Unsupported("int op " + op)

    def binop(self, op, a, b, fr=None, r=None):
        if isinstance(a, Ref) or isinstance(b, Ref):
            if op in ("Eq", "Ne"):
                same = isinstance(a, Ref) and isinstance(b, Ref) and a.cell is b.cell and a.path == b.path
                return same == (op == "Eq")
            raise Unsupported("pointer op " + op)
        fa = isinstance(a, E) and not is_int_e(a) and not is_bool_e(a)
        fb = isinstance(b, E) and not is_int_e(b) and not is_bool_e(b)
        if fa and fb:
            if op == "Add":
                return self.farith("add", a, b)
            if op == "Sub":
                return self.farith("sub", a, b)
            if op == "Mul":
                return self.farith("mul", a, b)
            if op == "Div":
                return self.farith("div", a, b)
            if op == "Rem":
                return self.farith("fmod", a, b)
            if op == "Lt":
                return self.fcmp("lt", a, b)
            if op == "Le":
                return self.fcmp("le", a, b)
            if op == "Gt":
                return self.fcmp("lt", b, a)
            if op == "Ge":
                return self.fcmp("le", b, a)
            if op == "Eq":
                return self.fcmp("feq", a, b)
            if op == "Ne":
                return lnot(self.fcmp("feq", a, b))
            raise Unsupported("float op " + op)
        if isinstance(a, (bool,)) or isinstance(b, bool) or is_bool_e(a) or is_bool_e(b):
            if op == "BitAnd":
                return land(a, b)
            if op == "BitOr":
                return lor(a, b)
            if op in ("Eq", "Ne", "BitXor"):
                if isinstance(a, bool) and isinstance(b, bool):
                    return (a == b) == (op == "Eq")
                if isinstance(a, bool):
                    a, b = b, a
                if isinstance(b, bool):
                    e = a if b else lnot(a)
                else:
                    e = lor(land(a, b), land(lnot(a), lnot(b)))
                return e if op == "Eq" else lnot(e)
            if isinstance(a, bool) and isinstance(b, bool):
                return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
            raise Unsupported("bool op " + op)
        if isinstance(a, E) or isinstance(b, E):
            m = {"Lt": "ilt", "Le": "ile", "Eq": "ieq"}
            if op in m:
                return mk(m[op], a, b)
            if op == "Gt":
                return mk("ilt", b, a)
            if op == "Ge":
                return mk("ile", b, a)
            if op == "Ne":
                return lnot(mk("ieq", a, b))
            return self.intop(op, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[op]
            if op == "Cmp":
                raise Unsupported("cmp")
            v = self.intop(op, a, b)
            ty = self.int_ty(fr, r[2], r[3]) if r else "usize"
            return wrap_int(v, ty)
        raise Unsupported(f"binop {op} {a!r} {b!r}")

    def farith(self, op, *a):
        if all(is_f(x) for x in a):
            v = [fval(x) for x in a]
            if self.mode != "real" or op == "neg" or any(abs(x) == float("inf") or x != x for x in v):
                r = fold_f(op, v)
                if r is not None:
                    return fconst(r)
        elif op == "div" and is_f(a[1]) and abs(fval(a[1])) == float("inf") and self.mode == "real":
            return ZERO
        # exact in IEEE arithmetic: x * 1 = x / 1 = x - 0 = x
        if op in ("mul", "div") and is_f(a[1]) and fval(a[1]) == 1.0:
            return a[0]
        if op == "mul" and is_f(a[0]) and fval(a[0]) == 1.0:
            return a[1]
        if op == "sub" and is_f(a[1]) and a[1].args[0] == 0:
            return a[0]
        return mk(op, *a)

    def fcmp(self, op, a, b):
        if a is b and self.mode != "tot":
            return op != "lt"
        for x in (a, b):
            if is_f(x) and fval(x) != fval(x):
                return False
        if self.mode != "tot":
            # infinities as constants
            ia = fval(a) if is_f(a) and abs(fval(a)) == float("inf") else None
            ib = fval(b) if is_f(b) and abs(fval(b)) == float("inf") else None
            if ia is not None or ib is not None:
                x = ia if ia is not None else 0.0
                y = ib if ib is not None else 0.0
                return {"lt": x < y, "le": x <= y, "feq": x == y}[op]
        if is_f(a) and is_f(b):
            x, y = fval(a), fval(b)
            return {"lt": x < y, "le": x <= y, "feq": x == y}[op]
        return mk(op, a, b)

    def cast(self, fr, r):
        kind, v, tid = r[1], self.operand(fr, r[2]), r[3]
        t = self.prog.types[tid]
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                return self.unsize(v, r[4], tid)
            if "Reify" in kind or "MutToConst" in kind or "ArrayToPointer" in kind:
                return v
            if "ClosureFnPointer" in kind:
                return FnVal(self.prog.types[r[4]]["inst"])
            return v
        if kind == "IntToInt":
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, E):
                if is_bool_e(v) and t["s"] != "bool":
                    return 1 if self.branch(v) else 0
                return v
            if isinstance(v, Agg):  # C-like enum
                tt = self.prog.types[v.ty]
                v = int(tt["variants"][v.variant]["discr"])
            return wrap_int(v, t["s"])
        if kind == "IntToFloat":
            if isinstance(v, E):
                return mk("ofint", v)
            return fconst(float(v))
        if kind == "FloatToInt":
            if is_f(v):
                x = fval(v)
                lo, hi = int_range(t["s"])
                if x != x:
                    return 0
                return max(lo, min(hi, int(x) if abs(x) != float("inf") else (hi if x > 0 else lo)))
            if self.mode == "real" and t["s"].startswith("u") and self.branch(self.fcmp("lt", v, ZERO)):
                return 0
            return self.models.float_to_int(self, v, t["s"])
        if kind == "FloatToFloat":
            return v
        if kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute", "Subtype", "FnPtrToPtr"):
            if kind == "Transmute" and t["k"] in ("int", "uint") and isinstance(v, Ref):
                return 1 << 20  # compiler-inserted alignment and null checks of vec![..]'s buffer
            if kind == "Transmute" and t["k"] in ("int", "uint", "float") and not isinstance(v, Ref):
                raise Unsupported("transmute to " + t["s"])
            return v
        raise Unsupported("cast " + kind)

    def unsize(self, v, fromt, tot):
        def pointee(tid):
            t = self.prog.types[tid]
            if t["k"] in ("ref", "ptr"):
                return t["e"]
            if t["k"] == "adt" and t["args"]:
                return t["args"][0]
            return None

        fp, tp = pointee(fromt), pointee(tot)
        if tp is None or fp is None:
            raise Unsupported("unsize")
        if self.prog.types[tp]["k"] == "dyn":
            want = self.prog.types[tp]["s"]
            if self.prog.types[fp]["k"] == "dyn":
                # between trait objects: the vtable of the same type for the other trait
                if not isinstance(v, Ref) or v.vt is None:
                    raise Unsupported("upcast of " + repr(v))
                own = self.prog.vtables[v.vt.split("any!")[-1]]
                words = re.findall(r"\w+", want)
                if own["trait"].split("::")[-1] in words:
                    return v
                if re.search(r"\bany::Any\b", want):
                    return Ref(v.cell, v.path, v.rng, "any!" + v.vt)
                for key, vt in self.prog.vtables.items():
                    if vt["ty"] == own["ty"] and vt["trait"].split("::")[-1] in words:
                        return Ref(v.cell, v.path, v.rng, key)
                raise Unsupported("upcast to " + want)
            fs = self.prog.types[fp]["s"]
            for key, vt in self.prog.vtables.items():
                if (vt["ty"] == fp or self.prog.types[vt["ty"]]["s"] == fs) and vt["trait"].split("::")[-1] in re.findall(r"\w+", want):
                    return Ref(v.cell, v.path, v.rng, key)
            raise Unsupported("vtable for " + fs + " as " + want)
        return v


def is_int_e(e):
    return isinstance(e, E) and e.op in ("ivar", "iadd", "isub", "imul", "toint")


BOOLOPS = {"lt", "le", "feq", "not", "and", "or", "ilt", "ile", "ieq", "bvar", "true", "false", "isnan", "isfinite", "isinf", "signbit", "ubool"}


def is_bool_e(e):
    return isinstance(e, E) and e.op in BOOLOPS


def int_range(s):
    n = int_bits(s)
    if s[0] == "u":
        return 0, (1 << n) - 1
    return -(1 << (n - 1)), (1 << (n - 1)) - 1


def wrap_int(v, s):
    if not isinstance(v, int) or isinstance(v, bool):
        return v
    if s[0] not in "ui" or not (s[1:].isdigit() or s[1:] == "size"):
        return v
    n = int_bits(s)
    v &= (1 << n) - 1
    if s[0] == "i" and v >> (n - 1):
        v -= 1 << n
    return v


def _pc_range(self, x, lo, hi):
    self.assume_c(mk("le", lo, x), True)
    self.assume_c(mk("le", x, hi), True)


Exec.pc_range = _pc_range
