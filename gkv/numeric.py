"""Numeric interpretations: numpy doubles (mass evaluation) and mpmath (idealised reals)."""
import numpy as np
import mpmath as mp
from fractions import Fraction
from expr import *

mp.mp.dps = 60
TINY = mp.mpf(10) ** -40


def mpq(fr):
    return mp.mpf(fr.numerator) / fr.denominator


def rte_mp(x):
    f = mp.floor(x)
    d = x - f
    if abs(d - mp.mpf("0.5")) < TINY:
        return f if int(f) % 2 == 0 else f + 1
    return f if d < 0.5 else f + 1


def round_mp(x):
    return mp.sign(x) * mp.floor(abs(x) + mp.mpf("0.5"))


class NumErr(Exception):
    pass


def hash_uf(name, args):
    """deterministic pseudo-random smooth function for uninterpreted symbols"""
    import zlib

    s = mp.mpf(0)
    h = zlib.crc32(repr(name).encode())
    for i, a in enumerate(args):
        if isinstance(a, (int, str)):
            h = zlib.crc32(repr((h, a)).encode())
            continue
        s += mp.sin(a * (1 + (h % 97) / mp.mpf(97)) + i + 1)
        h = zlib.crc32(repr(h).encode())
    return mp.mpf(h % 1000) / 1000 + s


def ev_mp(nodes, env, exact=False):
    """evaluate nodes (list) under env {name: mpf}; returns dict node -> mpf/bool"""
    val = {}
    for n in topo(nodes):
        op = n.op
        try:
            if op == "f":
                x = fval(n)
                if exact or x != x or abs(x) == float("inf"):
                    val[n] = mp.mpf(x)
                else:
                    q, k = ideal(x)
                    v = mpq(q)
                    if k:
                        v = v * mp.pi ** k
                    val[n] = v
                continue
            if op == "q":
                val[n] = mpq(n.args[0])
                continue
            if op == "pi":
                val[n] = +mp.pi
                continue
            if op == "var":
                val[n] = env[n.args[0]]
                continue
            if op in ("ivar", "bvar"):
                val[n] = env.get(n.args[0], 0)
                continue
            a = [val[x] if isinstance(x, E) else x for x in n.args]
            val[n] = MP[op](*a)
        except KeyError:
            if op == "uf":
                val[n] = hash_uf((n.args[0], n.args[1]), [val[x] if isinstance(x, E) else x for x in n.args[2:]])
            elif op in ("var",):
                raise NumErr("unbound " + str(n.args[0]))
            else:
                raise NumErr("op " + op)
        except (ZeroDivisionError, ValueError, OverflowError, mp.NoConvergence) as e:
            val[n] = mp.nan
    return val


def _real(f):
    def g(x):
        if mp.isnan(x):
            return mp.nan
        r = f(x)
        if isinstance(r, mp.mpc):
            return mp.nan if abs(r.imag) > TINY else r.real
        return r

    return g


def _eq(a, b):
    return abs(a - b) <= TINY * (1 + abs(a))


MP = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
    "neg": lambda a: -a, "fma": lambda a, b, c: a * b + c, "powi": lambda a, n: a ** n,
    "sin": _real(mp.sin), "cos": _real(mp.cos), "tan": _real(mp.tan), "asin": _real(mp.asin), "acos": _real(mp.acos),
    "atan": _real(mp.atan), "atan2": lambda a, b: mp.atan2(a, b), "sinh": _real(mp.sinh), "cosh": _real(mp.cosh),
    "tanh": _real(mp.tanh), "asinh": _real(mp.asinh), "acosh": _real(mp.acosh), "atanh": _real(mp.atanh),
    "exp": _real(mp.exp), "ln": _real(mp.log), "sqrt": _real(mp.sqrt),
    "cbrt": lambda a: mp.sign(a) * mp.cbrt(abs(a)), "abs": abs, "hypot": lambda a, b: mp.sqrt(a * a + b * b),
    "floor": lambda a: mp.floor(a + TINY), "ceil": lambda a: mp.ceil(a - TINY), "round": round_mp, "rte": rte_mp,
    "trunc": lambda a: mp.sign(a) * mp.floor(abs(a) + TINY),
    "fmod": lambda a, b: a - b * mp.sign(a / b) * mp.floor(abs(a / b) + TINY),
    "powf": lambda a, b: mp.power(a, b) if a > 0 else (mp.nan if a < 0 else mp.mpf(0)),
    "expm1": _real(mp.expm1), "log1p": _real(mp.log1p),
    "max": max, "min": min, "signum": lambda a: mp.mpf(-1) if a < 0 else mp.mpf(1),
    "lt": lambda a, b: bool(a < b) and not _eq(a, b), "le": lambda a, b: bool(a <= b) or (not mp.isnan(a - b) and _eq(a, b)),
    "feq": lambda a, b: (not mp.isnan(a - b)) and _eq(a, b),
    "not": lambda a: not a, "and": lambda a, b: a and b, "or": lambda a, b: a or b, "true": lambda: True, "false": lambda: False,
    "iadd": lambda a, b: a + b, "isub": lambda a, b: a - b, "imul": lambda a, b: a * b,
    "ilt": lambda a, b: a < b, "ile": lambda a, b: a <= b, "ieq": lambda a, b: a == b, "ofint": lambda a: mp.mpf(a),
    "toint": lambda a: int(mp.sign(a) * mp.floor(abs(a) + TINY)), "ubool": lambda *a: False,
    "isnan": lambda a: bool(mp.isnan(a)), "isfinite": lambda a: bool(mp.isfinite(a)), "isinf": lambda a: bool(mp.isinf(a)),
    "signbit": lambda a: bool(a < 0), "copysign": lambda a, b: abs(a) * (-1 if b < 0 else 1),
}


def _npow(a, n):
    return np.power(a, float(n))


NP = {
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide, "neg": np.negative,
    "fma": lambda a, b, c: a * b + c, "powi": _npow, "sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin,
    "acos": np.arccos, "atan": np.arctan, "atan2": np.arctan2, "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh,
    "asinh": np.arcsinh, "acosh": np.arccosh, "atanh": np.arctanh, "exp": np.exp, "ln": np.log, "sqrt": np.sqrt,
    "cbrt": np.cbrt, "abs": np.abs, "hypot": np.hypot, "floor": np.floor, "ceil": np.ceil,
    "round": lambda a: np.sign(a) * np.floor(np.abs(a) + 0.5), "rte": np.round, "trunc": np.trunc, "fmod": np.fmod,
    "powf": np.power, "expm1": np.expm1, "log1p": np.log1p, "max": np.fmax, "min": np.fmin,
    "signum": lambda a: np.where(a < 0, -1.0, 1.0), "copysign": np.copysign,
    "lt": np.less, "le": np.less_equal, "feq": np.equal, "not": np.logical_not, "and": np.logical_and, "or": np.logical_or,
    "true": lambda: True, "false": lambda: False, "isnan": np.isnan, "isfinite": np.isfinite, "isinf": np.isinf,
    "signbit": np.signbit, "iadd": np.add, "isub": np.subtract, "imul": np.multiply, "ilt": np.less, "ile": np.less_equal,
    "ieq": np.equal, "ofint": lambda a: a * 1.0, "toint": np.trunc, "ubool": lambda *a: False,
}


def ev_np(nodes, env, n):
    val = {}
    with np.errstate(all="ignore"):
        for x in topo(nodes):
            if x.op == "f":
                val[x] = fval(x)
            elif x.op == "q":
                val[x] = float(x.args[0])
            elif x.op == "pi":
                val[x] = np.pi
            elif x.op in ("var", "ivar", "bvar"):
                val[x] = env.get(x.args[0], np.zeros(n))
            elif x.op == "uf":
                import zlib

                h = zlib.crc32(repr(x.args[:2]).encode())
                s = np.zeros(n)
                for i, a in enumerate(x.args[2:]):
                    if isinstance(a, E):
                        s = s + np.sin(val[a] * (1 + (h % 97) / 97.0) + i + 1)
                        h = zlib.crc32(repr(h).encode())
                    else:
                        h = zlib.crc32(repr((h, a)).encode())
                val[x] = h % 1000 / 1000.0 + s
            else:
                a = [val[y] if isinstance(y, E) else y for y in x.args]
                val[x] = NP[x.op](*a)
    return val


SPECIAL = np.array([0.0, 1.0, -1.0, 0.5, 2.0, np.pi, -np.pi, np.pi / 2, -np.pi / 2, np.pi / 4, -np.pi / 4, 180, -180, 90, -90, 360, 2 * np.pi])


def gen(rng, lo, hi, n):
    w = hi - lo
    u = lo + w * rng.random(n)
    k = rng.integers(0, 16, n)
    m = max(abs(lo), abs(hi), 1e-12)
    lg = m * 10.0 ** (-16 * rng.random(n)) * np.where(rng.random(n) < 0.5, -1, 1)
    out = np.where(k == 0, lo, np.where(k == 1, hi, np.where(k == 2, SPECIAL[rng.integers(0, len(SPECIAL), n)], np.where(k == 3, lg, np.where(k == 4, np.round(u), u)))))
    bad = ~((out >= lo) & (out <= hi))
    return np.where(bad, u, out)



def sample(inputs, pc, n=40000, seed=1, extra=(), box=None):
    """points of the path (doubles) -> (env arrays of the satisfying samples, count)"""
    rng = np.random.default_rng(seed)
    env = {}
    names = []
    for name, kind, lo, hi in inputs:
        if kind == "real":
            l = float(ev_mp([lo], {})[lo]) if lo.op != "f" else fval(lo)
            h = float(ev_mp([hi], {})[hi]) if hi.op != "f" else fval(hi)
        elif kind == "float":
            l, h = -10.0, 10.0
        else:
            continue
        if box and name in box:
            bl, bh = box[name]
            if kind == "float":
                l, h = max(bl, -1e7), min(bh, 1e7)
            else:
                l, h = max(l, bl), min(h, bh)
            if l > h:
                l = h
        env[name] = gen(rng, l, h, n)
        if kind == "float" and not (box and name in box):
            env[name] = env[name] * np.where(rng.random(n) < 0.2, 1e6, 1.0)
        names.append(name)
    for v in extra:
        if v not in env:
            l, h = (box or {}).get(v, (-3.0, 3.0))
            l, h = max(l, -1e7), min(h, 1e7)
            if l == -1e7 and h == 1e7:
                l, h = -3.0, 3.0
            if l > h:
                l = h
            env[v] = gen(rng, l, h, n)
    # states of converged iterations: |step(x) - x| < tol
    for c, b in pc:
        if b and c.op in ("lt", "le") and c.args[0].op == "abs" and c.args[1].op == "f" and 0 < fval(c.args[1]) < 1e-3:
            d = c.args[0].args[0]
            xs = [v for v in topo([d]) if v.op == "var" and "!" in v.args[0]]
            if len(xs) != 1 or xs[0].args[0] not in env:
                continue
            nm = xs[0].args[0]
            best = None
            for sg in (1.0, -1.0):
                e2 = dict(env)
                with np.errstate(all="ignore"):
                    for _ in range(40):
                        dv = np.broadcast_to(np.asarray(ev_np([d], e2, n)[d], dtype=float), (n,))
                        e2[nm] = e2[nm] + sg * dv
                    ok = np.sum(np.abs(np.asarray(ev_np([d], e2, n)[d], dtype=float)) < fval(c.args[1]))
                if best is None or ok > best[0]:
                    best = (ok, e2)
            if best[0]:
                env = best[1]
    # equalities var = term of earlier variables / constants
    for c, b in pc:
        if b and c.op == "feq":
            for x, y in (c.args, c.args[::-1]):
                if x.op == "var" and x not in topo([y]):
                    env[x.args[0]] = np.broadcast_to(np.asarray(ev_np([y], env, n)[y], dtype=float), (n,)).copy()
                    break
    conds = [c for c, _ in pc]
    if not conds:
        return env, n
    val = ev_np(conds, env, n)
    okm = np.ones(n, dtype=bool)
    for c, b in pc:
        v = val[c]
        okm &= np.broadcast_to(np.asarray(v, dtype=bool), (n,)) == b
    idx = np.nonzero(okm)[0]
    return {k: v[idx] for k, v in env.items()}, len(idx)


def seek(inputs, pc, seed=1, extra=(), box=None, n=3000, top=12, grid=160):
    """points of a thin path (an equality between terms, a narrow range): start from samples that miss
    few conditions and bracket a missed one along one input at a time"""
    rng = np.random.default_rng(seed + 77)
    env, _ = sample(inputs, [], n, seed + 5, extra, box)
    if not env:
        return []
    conds = [c for c, _ in pc]
    rngs = {}
    for name, kind, lo, hi in inputs:
        if kind in ("real", "float"):
            l, h = (float(ev_mp([lo], {})[lo]), float(ev_mp([hi], {})[hi])) if kind == "real" else (-1e7, 1e7)
            rngs[name] = (l, h)

    def status(e, k):
        v = ev_np(conds, e, k)
        return np.array([np.broadcast_to(np.asarray(v[c], dtype=bool), (k,)) == b for c, b in pc])

    out = []
    st = status(env, n)
    order = np.argsort(-st.sum(axis=0), kind="stable")[:top]
    for i in order:
        e = {k: float(v[i]) for k, v in env.items()}
        for _ in range(4):
            s = status({k: np.array([v]) for k, v in e.items()}, 1)[:, 0]
            miss = [j for j in range(len(pc)) if not s[j]]
            if not miss:
                out.append(e)
                break
            best = (s.sum(), None)
            for j in miss[:3]:
                c = pc[j][0]
                if c.op not in ("feq", "lt", "le"):
                    continue
                vs = [x.args[0] for x in topo([c]) if x.op == "var" and x.args[0] in rngs]
                for nm in vs:
                    l, h = rngs[nm]
                    g = np.unique(np.concatenate([np.linspace(l, h, grid), l + (h - l) * rng.random(grid), [e[nm]]]))
                    k = len(g)
                    ee = {q: np.full(k, v) for q, v in e.items()}
                    ee[nm] = g

                    def resid(x):
                        q = {a: np.full(len(x), v) for a, v in e.items()}
                        q[nm] = x
                        v = ev_np(list(c.args), q, len(x))
                        return np.broadcast_to(np.asarray(v[c.args[0]] - v[c.args[1]], dtype=float), (len(x),))

                    with np.errstate(all="ignore"):
                        r = resid(g)
                        ok = np.isfinite(r[:-1]) & np.isfinite(r[1:]) & (np.sign(r[:-1]) != np.sign(r[1:]))
                        a, b = g[:-1][ok].copy(), g[1:][ok].copy()
                        if len(a):
                            sa = np.sign(resid(a))
                            for _k in range(70):
                                m = 0.5 * (a + b)
                                left = np.sign(resid(m)) == sa
                                a, b = np.where(left, m, a), np.where(left, b, m)
                        cand = [g, a, b]
                        for t in (a, b):
                            u, d = t, t
                            for _k in range(3):
                                u, d = np.nextafter(u, np.inf), np.nextafter(d, -np.inf)
                                cand += [u, d]
                        cand = np.concatenate(cand)
                        cand = cand[(cand >= l) & (cand <= h)]
                    if not len(cand):
                        continue
                    q = {a_: np.full(len(cand), v) for a_, v in e.items()}
                    q[nm] = cand
                    sc = status(q, len(cand)).sum(axis=0)
                    w = int(np.argmax(sc))
                    if sc[w] > best[0]:
                        best = (sc[w], (nm, float(cand[w])))
            if best[1] is None:
                break
            e[best[1][0]] = best[1][1]
        if len(out) >= 4:
            break
    return out
