"""Loading of the driver's JSON: types, constants, control-flow facts."""
import json, struct
from expr import *


class Agg:
    """struct / tuple / enum / array / closure value (immutable)"""
    __slots__ = ("ty", "variant", "f")

    def __init__(self, ty, variant, f):
        self.ty = ty
        self.variant = variant
        self.f = tuple(f)

    def __repr__(self):
        return f"Agg({self.ty},{self.variant},{list(self.f)})"


class Cell:
    __slots__ = ("v", "name")

    def __init__(self, v=None, name=""):
        self.v = v
        self.name = name


class Ref:
    """pointer: base cell, path of indices, optional slice range, optional vtable"""
    __slots__ = ("cell", "path", "rng", "vt")

    def __init__(self, cell, path=(), rng=None, vt=None):
        self.cell = cell
        self.path = path
        self.rng = rng
        self.vt = vt

    def __repr__(self):
        return f"&{self.cell.name}{list(self.path)}{self.rng or ''}{self.vt or ''}"


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return f"Str({self.s!r})"


class Mat:
    """nalgebra matrix: r rows, c columns, elements f in column-major order"""
    __slots__ = ("r", "c", "f")

    def __init__(self, r, c, f):
        self.r, self.c, self.f = r, c, tuple(f)

    def __repr__(self):
        return f"Mat{self.r}x{self.c}{list(self.f)}"

    def at(self, i, j):
        return self.f[j * self.r + i]


class Seq:
    """growable sequence (Vec, SmallVec, String-like)"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return f"Seq{list(self.f)}"


class FnVal:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst


class Opaque:
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f"Opaque({self.tag})"


class Unsupported(Exception):
    pass


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.funcs = d["funcs"]
        self.allocs = d["allocs"]
        self.vtables = d["vtables"]
        self.roots = {n.removeprefix("proofs::"): k for n, k in d["roots"]}
        self.alloc_cells = {}
        self._loops = {}
        self._joins = {}
        self._live = {}

    # ---------------------------------------------------------- constants
    def decode(self, tid, data, ptrs, off=0):
        t = self.types[tid]
        k = t["k"]
        if k == "float":
            if t["s"] == "f32":
                return fconst(struct.unpack_from("<f", data, off)[0])
            return mk("f", struct.unpack_from("<Q", data, off)[0])
        if k == "bool":
            return bool(data[off])
        if k in ("int", "uint", "char"):
            n = int_bits(t["s"]) // 8
            return int.from_bytes(data[off : off + n], "little", signed=(k == "int"))
        if k == "tuple":
            offs = field_offs(t["layout"])
            return Agg(tid, 0, [self.decode(ft, data, ptrs, off + o) for ft, o in zip(t["f"], offs)])
        if k == "array":
            st = t["layout"]["fields"]["Array"]["stride"]["num_bits"] // 8 if t["n"] else 0
            return Agg(tid, 0, [self.decode(t["e"], data, ptrs, off + i * st) for i in range(t["n"])])
        if k == "closure":
            return Agg(tid, 0, [])
        if k == "fndef":
            return FnVal(t["inst"])
        if k in ("ref", "ptr"):
            return self.decode_ptr(t["e"], data, ptrs, off)
        if k == "fnptr":
            a = ptrs.get(off)
            if a is not None and self.allocs[a]["k"] == "fn":
                return FnVal(self.allocs[a]["inst"])
            raise Unsupported("fnptr const")
        if k == "adt":
            if t["name"].endswith("SmolStr"):
                for o in (off, off + 8):
                    a = ptrs.get(o)
                    if a is not None and self.allocs[a]["k"] == "mem":
                        b = int.from_bytes(data[o : o + 8], "little")
                        n = int.from_bytes(data[o + 8 : o + 16], "little")
                        return Opaque("smolstr:" + bytes.fromhex(self.allocs[a]["bytes"])[b : b + n].decode("utf8", "replace"))
                if data[off] <= 23:
                    return Opaque("smolstr:" + data[off + 1 : off + 1 + data[off]].decode("utf8", "replace"))
                raise Unsupported("SmolStr constant")
            if t["kind"] == "Struct":
                fs = t["variants"][0]["fields"]
                if not fs:
                    return Agg(tid, 0, [])
                offs = field_offs(t["layout"])
                return Agg(tid, 0, [self.decode(ft, data, ptrs, off + o) for (_, ft), o in zip(fs, offs)])
            if t["kind"] == "Enum":
                vs = t["layout"]["variants"]
                if "Single" in vs:
                    vi = vs["Single"]["index"]
                    offs = field_offs(t["layout"])
                else:
                    m = vs["Multiple"]
                    tagoff = field_offs(t["layout"])[m["tag_field"]]
                    tv = m["tag"].get("Initialized") or m["tag"].get("Union")
                    val = tv["value"]
                    if "Int" in val:
                        nb = int(val["Int"]["length"][1:]) // 8
                    else:
                        nb = 8
                    tag = int.from_bytes(data[off + tagoff : off + tagoff + nb], "little")
                    has_ptr = (off + tagoff) in ptrs
                    te = m["tag_encoding"]
                    if te == "Direct":
                        vi = next(i for i, v in enumerate(t["variants"]) if (int(v["discr"]) & ((1 << (8 * nb)) - 1)) == tag)
                    else:
                        n = te["Niche"]
                        st, en = n["niche_variants"]["start"], n["niche_variants"]["end"]
                        rel = (tag - n["niche_start"]) % (1 << (8 * nb))
                        if not has_ptr and rel <= en - st:
                            vi = st + rel
                        else:
                            vi = n["untagged_variant"]
                    offs = [o["num_bits"] // 8 for o in m["variants"][vi]["offsets"]]
                fs = t["variants"][vi]["fields"]
                return Agg(tid, vi, [self.decode(ft, data, ptrs, off + o) for (_, ft), o in zip(fs, offs)])
        raise Unsupported("const of type " + t["s"])

    def decode_ptr(self, e, data, ptrs, off):
        a = ptrs.get(off)
        et = self.types[e]
        if a is None:
            if et["k"] == "slice":
                return Ref(Cell(Seq(())))
            if et["k"] == "str":
                return Ref(Cell(Str("")))
            return Ref(Cell(Agg(e, 0, [])))
        base = int.from_bytes(data[off : off + 8], "little")
        al = self.allocs[a]
        if al["k"] == "fn":
            return FnVal(al["inst"])
        if al["k"] != "mem":
            raise Unsupported("alloc " + al["k"])
        key = (a, e, base, int.from_bytes(data[off + 8 : off + 16], "little") if et["k"] in ("slice", "str") else 0)
        if key in self.alloc_cells:
            c = self.alloc_cells[key]
        else:
            ad = bytes.fromhex(al["bytes"])
            ap = {o: i for o, i in al["ptrs"]}
            if et["k"] == "str":
                n = key[3]
                v = Str(ad[base : base + n].decode("utf8", "replace"))
            elif et["k"] == "slice":
                n = key[3]
                el = self.types[et["e"]]
                st = self.size_of(et["e"])
                v = Agg(None, 0, [self.decode(et["e"], ad, ap, base + i * st) for i in range(n)])
            elif et["k"] == "dyn":
                raise Unsupported("dyn const")
            else:
                v = self.decode(e, ad, ap, base)
            c = Cell(v, f"alloc{a}")
            self.alloc_cells[key] = c
        return Ref(c)

    def size_of(self, tid):
        t = self.types[tid]
        if t.get("layout"):
            return t["layout"]["size"]["num_bits"] // 8
        if t["k"] in ("int", "uint", "float", "char"):
            return int_bits(t["s"]) // 8
        if t["k"] == "bool":
            return 1
        if t["k"] in ("ref", "ptr"):
            return 16 if self.types[t["e"]]["k"] in ("str", "slice", "dyn") else 8
        raise Unsupported("size of " + t["s"])

    # ---------------------------------------------------------- loops
    def joins(self, key):
        """blocks that several blocks lead to"""
        if key not in self._joins:
            n = {}
            for b in self.funcs[key]["body"]["blocks"]:
                for v in set(successors(b["t"])):
                    n[v] = n.get(v, 0) + 1
            self._joins[key] = {b for b, k in n.items() if k > 1} | set(self.loops(key))
        return self._joins[key]

    def live(self, key):
        """block -> locals that may still be read (or are borrowed somewhere)"""
        if key in self._live:
            return self._live[key]
        body = self.funcs[key]["body"]
        blocks = body["blocks"]
        borrowed = set()
        use, kill = [], []
        for b in blocks:
            u, k = set(), set()

            def reads(x):
                o = set()
                _places(x, o)
                u.update(o - k)

            def dest(pl):
                if pl[1]:
                    reads(pl)
                else:
                    k.add(pl[0])

            for s in b["s"]:
                if s[0] == "assign":
                    reads(s[2])
                    if s[2][0] in ("ref", "addrof", "reborrow"):
                        borrowed.add(s[2][1][0])
                    dest(s[1])
                elif s[0] == "setdiscr":
                    reads(s[1])
            t = b["t"]
            if t[0] == "call":
                reads(t[1])
                reads(t[2])
                dest(t[3])
            elif t[0] == "return":
                u.update({0} - k)
            elif t[0] == "switch":
                reads(t[1])
            elif t[0] == "assert":
                reads(t[1])
            use.append(u)
            kill.append(k)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(len(blocks) - 1, -1, -1):
                o = set()
                for v in successors(blocks[i]["t"]):
                    o |= live[v]
                nw = use[i] | (o - kill[i])
                if nw != live[i]:
                    live[i] = nw
                    ch = True
        self._live[key] = [l | borrowed for l in live]
        return self._live[key]

    def loops(self, key):
        """header -> set of blocks (natural loops)"""
        if key in self._loops:
            return self._loops[key]
        body = self.funcs[key]["body"]
        n = len(body["blocks"])
        succ = [successors(b["t"]) for b in body["blocks"]]
        # back edges by DFS
        color = [0] * n
        back = []
        st = [(0, iter(succ[0]))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(succ[v])))
                    break
                elif color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                st.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                pred[v].append(u)
        res = {}
        for u, h in back:
            blk = res.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in blk:
                    continue
                blk.add(x)
                w.extend(pred[x])
        self._loops[key] = res
        return res


def _places(x, out):
    """the locals read by an operand / rvalue tree"""
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(p, (list, tuple)) and p and isinstance(p[0], str) for p in x[1]):
            out.add(x[0])
            for p in x[1]:
                if p[0] == "index":
                    out.add(p[1])
            return
        for y in x:
            _places(y, out)


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def field_offs(layout):
    f = layout["fields"]
    if "Arbitrary" in f:
        return [o["num_bits"] // 8 for o in f["Arbitrary"]["offsets"]]
    if f == "Primitive":
        return []
    return [0]


def int_bits(s):
    if s in ("usize", "isize", "f64"):
        return 64
    if s == "char" or s == "f32":
        return 32
    return int(s[1:])
