"""debug: run one harness"""
import sys, time
sys.path.insert(0, __file__.rsplit("/",1)[0])
from mirload import Program
from execm import Exec
from solver import Z3Solver
from prove import PathProver
import argparse
p=argparse.ArgumentParser(); p.add_argument("h"); p.add_argument("-m",default="real"); p.add_argument("--uf",default=""); p.add_argument("--loop",default="unroll"); p.add_argument("-v",action="store_true"); p.add_argument("--id",default="");p.add_argument("--budget",type=float,default=20)
a=p.parse_args()
t0=time.time()
import build; build.all_builds(a.h.split("::")[0],a.h.split("::")[0])
prog=Program("/verif/.build/mir-%s.json"%a.h.split("::")[0])
import config
c=config.cfg(a.h)
a.m=c["mode"] if a.m=="real" else a.m
a.loop=c["loop"] if a.loop=="unroll" else a.loop
a.uf=",".join(c["uf"]) if not a.uf else a.uf
from fpmode import Z3FP, FPProver
mkp=lambda i,pc,b: FPProver(i,pc,1,b) if a.m=="fp" else PathProver(i,pc,budget=b)
print("load",time.time()-t0)
ex=Exec(prog,mode=a.m,solver=Z3FP() if a.m=='fp' else Z3Solver(),uf=tuple(x for x in a.uf.split(",") if x),loop_mode=a.loop)
rs=ex.explore(a.h); print("paths",len(rs),time.time()-t0, ex.stats, "z3",ex.solver.queries,ex.solver.time)
from collections import Counter
print(Counter((r.status,r.why) for r in rs))
tot=Counter(); shown=0
for i,r in enumerate(rs):
    cache={}
    for o in r.obls:
        if a.id and a.id not in o.id: continue
        t1=time.time()
        key=len(o.pc)
        pp=cache.get(key) or mkp(r.inputs,o.pc,a.budget); cache[key]=pp
        v=pp.prove(o); tot[(o.id,v.status,v.how)]+=1
        shown+= v.status!="proved"
        if (v.status!="proved" and shown<8) or (a.v and v.status=="proved" and i<3):
            print(i,o.kind,o.id,v,"%.2f"%(time.time()-t1),{k:x for k,x in (v.point or {}).items()}, v.diff if v.diff is None else float(v.diff))
            if a.v and v.status!="proved": print("   pc",[str(x)[:150] for x in (o.pc[:6]+o.pc[-8:])]); print("  ",[str(x)[:300] for x in o.args])
for k,n in sorted(tot.items()): print(n,k)
print("time",time.time()-t0)
