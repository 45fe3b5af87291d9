#!/usr/bin/env python3-vt
"""check.py <property> <quick|thorough>

Re-extracts the MIR of /repo's current tree together with the contracts in /verif/proofs, generates
the obligations of the property, discharges them, and runs the same contracts natively."""
import sys, os, time, json, subprocess, struct, traceback, multiprocessing as mpx
import concurrent.futures as cf

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, config

HOME = build.HOME


def hexf(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", float(x)))[0]


# ------------------------------------------------------------------------------ proving (worker)
def prove_worker(a):
    """explore one harness and discharge the obligations of the paths with index % split == part"""
    mirp, h, part, tier, seed, deadline = a
    t0 = time.time()
    out = {"harness": h, "part": part, "obls": [], "paths": 0, "status": "ok", "why": "", "functions": {}, "directed": [], "z3": [0, 0.0], "reach": 0}
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        from mirload import Program, Unsupported
        from execm import Exec
        from solver import Z3Solver
        from prove import PathProver
        from collections import Counter

        c = config.cfg(h)
        prog = Program(mirp)
        from fpmode import Z3FP, FPProver

        sol = Z3FP() if c["mode"] == "fp" else Z3Solver()

        def prover(inputs, pc, budget):
            if c["mode"] == "fp":
                return FPProver(inputs, pc, seed, budget)
            return PathProver(inputs, pc, seed=seed, budget=budget)

        ex = Exec(prog, mode=c["mode"], solver=sol, uf=c["uf"], loop_mode=c["loop"], max_paths=c["paths"], time_limit=max(5.0, deadline - time.time()))
        if c["mode"] == "tot":
            import total

            out.update(total.run(ex, h, c, deadline))
            out["functions"] = ex.functions_run
            out["wall"] = time.time() - t0
            return out
        try:
            rs = ex.explore(h)
        except Unsupported as e:
            out["status"], out["why"] = "unsupported", str(e)[:300]
            out["functions"] = ex.functions_run
            out["wall"] = time.time() - t0
            return out
        out["functions"] = ex.functions_run
        out["paths"] = len(rs)
        agg = {}
        for i, r in enumerate(rs):
            if i % c["split"] != part:
                continue
            cache = {}
            choices = [(n, float(lo)) for n, k, lo, hi in r.inputs if k == "choice"]
            unk = False
            for o in r.obls:
                left = deadline - time.time()
                if left <= 0:
                    st, how, pt, diff, tol = "unknown", "time budget", None, None, None
                else:
                    key = len(o.pc)
                    pp = cache.get(key)
                    if pp is None:
                        pp = cache[key] = prover(r.inputs, o.pc, min(c["budget"], left))
                    try:
                        v = pp.prove(o)
                        st, how, pt, diff = v.status, v.how, v.point, v.diff
                        tol = pp.tol_at(o, v) if st == "refuted" else None
                    except Unsupported as e:
                        st, how, pt, diff, tol = "unknown", "unsupported " + str(e)[:100], None, None, None
                    except Exception as e:
                        st, how, pt, diff, tol = "unknown", "internal " + repr(e)[:200], None, None, None
                unk = unk or st == "unknown"
                g = agg.setdefault((o.id, o.kind, st, how), {"n": 0, "ex": [], "where": o.where})
                g["n"] += 1
                if st != "proved" and len(g["ex"]) < 6:
                    p = None
                    if pt is not None:
                        p = dict(choices)
                        p.update({k: v for k, v in pt.items()})
                    g["ex"].append({"point": p, "diff": float(diff) if diff is not None else None, "tol": tol, "pc": [str(x)[:160] for x in o.pc[-6:]]})
            # points of this path, to be run natively
            last = r.obls[-1].pc if r.obls else r.pc
            pp = cache.get(len(last))
            if r.obls and time.time() < deadline + 10:
                try:
                    if pp is None:
                        pp = prover(r.inputs, last, c["budget"])
                    pts = pp.native_points(6, unk)
                    if pts:
                        out["reach"] += 1
                    for p in pts:
                        d = dict(choices)
                        d.update(p)
                        out["directed"].append(d)
                except Exception:
                    pass
            for pp in cache.values():
                out["z3"][0] += pp.z3n
                out["z3"][1] += pp.z3time
        out["z3"][0] += sol.queries
        out["z3"][1] += sol.time
        out["obls"] = [dict(id=k[0], kind=k[1], status=k[2], how=k[3], **v) for k, v in agg.items()]
    except MemoryError:
        out["status"], out["why"] = "unsupported", "memory"
    except Exception as e:
        out["status"], out["why"] = "unsupported", "internal: " + repr(e)[:300] + traceback.format_exc()[-600:]
    out["wall"] = time.time() - t0
    return out


# ------------------------------------------------------------------------------ native
def native_sample(nat, h, seed, ms):
    try:
        r = subprocess.run([nat, "sample", h, "100000000", str(seed), str(ms)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=ms / 1000 + 120)
        if r.returncode != 0 and not r.stdout.strip():
            return {"n": 0, "rejected": 0, "checks": 0, "found": [{"inputs": [], "fails": [{"id": f"process died with status {r.returncode}"}]}]}
        return json.loads(r.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return {"n": 0, "rejected": 0, "checks": 0, "found": []}
    except (ValueError, IndexError):
        return {"n": 0, "rejected": 0, "checks": 0, "found": []}


def native_batch(nat, h, pts):
    lines = []
    for p in pts:
        lines.append(" ".join(f"{k.replace(' ', '~')}={hexf(v)}" for k, v in p.items() if "!" not in k))
    try:
        r = subprocess.run([nat, "batch", h], input="\n".join(lines), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=200)
        j = json.loads(r.stdout.strip().splitlines()[-1])
        for f in j["found"]:
            if "line" in f and f["line"] < len(pts):
                f["inputs"] = [[k, hexf(v), repr(v)] for k, v in pts[f["line"]].items() if "!" not in k]
        return j
    except Exception:
        return {"n": 0, "rejected": 0, "found": []}


def load_known():
    p = HOME + "/known_findings.jsonl"
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith("{"):
                out.append(json.loads(l))
    return out


def known_match(known, prop, h, fail_id, inputs):
    for k in known:
        if k.get("status") != "known" or k["property"] != prop or k.get("harness") != h or k.get("obligation") != fail_id:
            continue
        vals = {n: float(struct.unpack("<d", bytes.fromhex(hx)[::-1])[0]) for n, hx, _ in inputs}
        try:
            if eval(k["input"], {"__builtins__": {}, "abs": abs}, vals):
                return k
        except Exception:
            continue
    return None


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = config.PROPS[prop]
    mod = P["module"]
    os.makedirs(HOME + "/evidence", exist_ok=True)
    rdir = HOME + "/replays"
    os.makedirs(rdir, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "coverage": {}, "assumptions": list(config.ASSUMPTIONS) + P.get("assumptions", []), "violations": 0}
    note = ""
    try:
        mirp, nat, note = build.all_builds(mod, mod)
    except Exception as e:
        # the contracts no longer fit this tree: nothing can be decided (never an alarm)
        ev["coverage"] = {"obligations": 0, "discharged": 0, "undecided": "contracts do not build against this tree", "detail": str(e)[-2000:], "checker_cmd": f"python3-vt gkv/check.py {prop} {tier}", "trusted_base": config.TRUSTED}
        ev["wall_s"] = round(time.time() - t0, 2)
        json.dump(ev, open(f"{HOME}/evidence/{prop}.json", "w"), indent=1)
        print("UNDECIDED: contracts do not build against this tree\n" + str(e)[-3000:])
        return 0
    tb = time.time() - t0
    hs = [l for l in subprocess.run([nat, "list"], stdout=subprocess.PIPE, text=True).stdout.split() if l.startswith(mod + "::")]
    budget = P.get("quick_s", 150) if tier == "quick" else P.get("thorough_s", 900)
    deadline = time.time() + budget
    jobs = []
    for h in hs:
        c = config.cfg(h)
        if c["mode"] == "native":
            continue
        for k in range(c["split"]):
            jobs.append((mirp, h, k, tier, seed, deadline))
    jobs.sort(key=lambda j: -config.cfg(j[1]).get("weight", 1))
    ms = (2500 if tier == "quick" else 40000)
    res, samples = [], {}
    with cf.ProcessPoolExecutor(7, mp_context=mpx.get_context("spawn")) as pool, cf.ThreadPoolExecutor(2) as tp:
        futs = [pool.submit(prove_worker, j) for j in jobs]
        sf = {h: tp.submit(native_sample, nat, h, seed, int(ms * config.cfg(h).get("ms", 1))) for h in hs}
        for f, j in zip(futs, jobs):
            try:
                res.append(f.result(timeout=max(1, deadline - time.time() + 60)))
            except Exception as e:
                res.append({"harness": j[1], "part": j[2], "obls": [], "paths": 0, "status": "unsupported", "why": "worker: " + repr(e)[:200], "functions": {}, "directed": [], "z3": [0, 0.0], "reach": 0, "wall": 0})
        samples = {h: f.result() for h, f in sf.items()}
        for p in list((pool._processes or {}).values()):
            p.kill() if any(not f.done() for f in futs) else None
    known = load_known()
    viols, knowns = [], []
    per = {}
    totals = {"obligations": 0, "discharged": 0, "refuted": 0, "undecided": 0}
    functions = {}
    z3n, z3t = 0, 0.0
    undecided = []
    bounded = []
    for h in hs:
        rr = [r for r in res if r["harness"] == h]
        pd = {"paths": max([r["paths"] for r in rr], default=0), "obligations": 0, "discharged": 0, "native_samples": samples[h]["n"] - samples[h]["rejected"], "native_checks": samples[h]["checks"]}
        hard = []
        directed = []
        for r in rr:
            functions.update(r["functions"])
            z3n += r["z3"][0]
            z3t += r["z3"][1]
            directed += r["directed"]
            if r["status"] != "ok":
                undecided.append({"harness": h, "why": r["why"]})
                pd["unsupported"] = r["why"]
            for o in r["obls"]:
                pd["obligations"] += o["n"]
                if o["status"] == "proved":
                    pd["discharged"] += o["n"]
                else:
                    hard.append(o)
        # run the contracts natively on points of every explored path and on the refutations
        pts = directed[:4000]
        for o in hard:
            for e in o["ex"]:
                if e["point"]:
                    pts.append(e["point"])
        b = native_batch(nat, h, pts) if pts else {"n": 0, "rejected": 0, "found": []}
        pd["native_directed"] = b["n"] - b["rejected"]
        found = samples[h]["found"] + b["found"]
        done = set()
        for f in found:
            for fl in f["fails"]:
                k = known_match(known, prop, h, fl["id"], f["inputs"])
                if k:
                    knowns.append(k)
                    continue
                if fl["id"] in done:
                    continue
                done.add(fl["id"])
                viols.append({"harness": h, "id": fl["id"], "native": f, "fail": fl, "failing_input": True})
        for o in hard:
            if o["status"] == "refuted":
                totals["refuted"] += o["n"]
                if any(v["harness"] == h for v in viols):
                    continue
                big = [e for e in o["ex"] if e["diff"] is not None and (o["kind"] == "unreachable" or e["tol"] is None or e["diff"] > e["tol"] / 50)]
                # a refutation over the idealised reals that the compiled code does not reproduce
                if big and not any("!" in k for e in big for k in (e["point"] or {})) and config.cfg(h).get("ideal_alarm", not config.cfg(h)["uf"]):
                    viols.append({"harness": h, "id": o["id"], "native": None, "obligation": o, "failing_input": False})
                else:
                    undecided.append({"harness": h, "obligation": o["id"], "why": "refuted below tolerance/unreproduced", "n": o["n"]})
            else:
                totals["undecided"] += o["n"]
                undecided.append({"harness": h, "obligation": o["id"], "why": o["how"], "n": o["n"]})
        if pd["obligations"] == 0 or pd["discharged"] < pd["obligations"]:
            bounded.append(h)
        totals["obligations"] += pd["obligations"]
        totals["discharged"] += pd["discharged"]
        per[h] = pd
    rc = 0
    lines = []
    for i, v in enumerate(viols):
        rp = f"{rdir}/{prop}-{i}.json"
        cmd = None
        if v["failing_input"]:
            if v["native"].get("seed"):
                cmd = f"{nat} replay {v['harness']} seed={v['native']['seed']}"
            else:
                cmd = f"{nat} replay {v['harness']} " + " ".join(f"'{n}={hx}'" for n, hx, _ in v["native"]["inputs"])
        json.dump({"property": prop, "harness": v["harness"], "obligation": v["id"], "replay_cmd": cmd, "detail": v}, open(rp, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={rp}" + ("" if v["failing_input"] else " no-failing-input-found"))
        print(f"failed obligation: {v['harness']} :: {v['id']}", json.dumps(v.get("fail") or v.get("obligation"), default=str)[:600])
        if v["failing_input"]:
            print("  inputs:", v["native"]["inputs"])
        rc = 1
    seen = set()
    for k in knowns:
        if k["what"] not in seen:
            seen.add(k["what"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    ev["coverage"] = {
        "obligations": totals["obligations"], "discharged": totals["discharged"], "refuted": totals["refuted"], "undecided": totals["undecided"],
        "checker_cmd": f"python3-vt gkv/check.py {prop} {tier}", "trusted_base": config.TRUSTED,
        "functions_under_contract": sorted(functions), "n_functions": len(functions),
        "back_end": "gkv: symbolic execution of monomorphic MIR + algebraic normaliser (own) + interval arithmetic (own) + z3 5.3.2",
        "z3_queries": z3n, "z3_seconds": round(z3t, 2), "per_harness": per, "undecided_items": undecided[:60],
        "bounded_harnesses": bounded, "bound": "harnesses listed in bounded_harnesses are decided for the undischarged obligations only by native sampling (counts in per_harness)",
        "note": note, "build_seconds": round(tb, 1),
    }
    if totals["obligations"] == 0 and not undecided:
        undecided.append({"why": "vacuous: no obligation generated"})
    ev["violations"] = len(viols)
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(f"{HOME}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: {totals['discharged']}/{totals['obligations']} obligations discharged over {len(hs)} harnesses, {len(functions)} functions; undecided {totals['undecided']}, refuted {totals['refuted']}; {ev['wall_s']} s (build {tb:.1f})")
    for u in undecided[:20]:
        print("  undecided:", json.dumps(u)[:300])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    r = main()
    sys.stdout.flush()
    os._exit(r)
