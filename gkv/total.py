"""Mode tot: termination and absence of panics for every floating-point input.

The execution is explored with every float that is not a compile-time constant read as 'some
float' (NaN and infinities included), so each comparison can go either way.  States (the code
still to run, the integers, constants and shapes of all live data) are merged where control flow
meets; the states form a finite graph.  No panic is reached in the graph: no input panics.  The
graph has no cycle: every execution is finite.  (States are identified by a 128-bit hash.)"""
import time
from mirload import Unsupported


def cyclic(edges):
    color = {}
    for r in edges:
        if color.get(r):
            continue
        st = [(r, iter(edges.get(r, ())))]
        color[r] = 1
        while st:
            u, it = st[-1]
            for v in it:
                c = color.get(v, 0)
                if c == 1:
                    return True
                if c == 0:
                    color[v] = 1
                    st.append((v, iter(edges.get(v, ()))))
                    break
            else:
                color[u] = 2
                st.pop()
    return False


def run(ex, h, c, deadline):
    out = {}
    ex.max_paths = 1 << 30
    ex.max_iter = 5000
    ex.time_limit = max(5.0, deadline - time.time())
    try:
        rs = ex.explore(h)
    except Unsupported as e:
        return {"status": "unsupported", "why": str(e)[:300]}
    obls = {}

    def add(id, kind, st, how, where=""):
        o = obls.setdefault((id, st), {"id": id, "kind": kind, "status": st, "how": how, "n": 0, "ex": [] if st == "proved" else [{"point": None, "diff": 1.0, "tol": None, "pc": []}], "where": where})
        o["n"] += 1

    panics = {}
    for r in rs:
        if r.status == "panic":
            panics.setdefault(r.why, r)
    bad = set()
    for w, r in panics.items():
        add("no panic: " + w[:160], "unreachable", "refuted", "a panic is reachable when floats are arbitrary", w)
        bad.add(w.rsplit(" at ", 1)[-1])
    cyc = cyclic(ex.tot_edges)
    for d, l in sorted(ex.tot_loops):
        add(f"terminates: loop at {d}:{l}", "terminates", "refuted" if cyc else "proved", "the graph of abstract states has a cycle" if cyc else "acyclic graph of abstract states")
    for d, l, m in sorted(ex.tot_sites):
        if not any(str(l) == b.rsplit(":", 1)[-1] for b in bad):
            add(f"no panic: {m} at {d}:{l}", "unreachable", "proved", "not reached in the graph of abstract states")
    add("returns", "terminates", "refuted" if cyc or panics else "proved", "every execution reaches the end" if not (cyc or panics) else "a panic or a cycle is reachable when floats are arbitrary")
    out["obls"] = list(obls.values())
    out["paths"] = len(rs)
    out["reach"] = sum(r.status == "done" for r in rs)
    out["states"] = len(ex.tot_edges)
    return out
