"""debug runner: run1.py C01 [name-substring]"""
import sys, os, time, importlib
sys.path.insert(0, "/verif"); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
from vc import engine, load
from contracts import common
prop = sys.argv[1]
importlib.import_module("contracts." + prop.lower())
pkg = load.symbolic_package()
ct = load.real_package()
for c in common.REG[prop]:
    if len(sys.argv) > 2 and sys.argv[2] not in c.name: continue
    t = time.time()
    f, n, ev = engine.search(c.fn, ct, 1, c.trials, 20, tol=c.tol)
    print("==", c.name, "float runs", n, ev, "%.1fs" % (time.time() - t), "FOUND %s %s %s" % (f[0], f[1], f[2].values) if f else "")
    if c.mode == "float": continue
    r = engine.explore(c.name, c.fn, pkg, budget=float(os.environ.get("B", c.budget)))
    print("   ", "COMPLETE" if r.complete else "INCOMPLETE", "paths", r.paths, "infeasible", r.infeasible, "goals", r.goals, "proved", r.proved, r.by_backend, "witness", r.witness, "z3 %d %.1fs" % (r.z3_calls, r.z3_time), "%.1fs" % r.time)
    for u in r.unsupported: print("    UNSUPPORTED", u[:600])
    for u in r.unknown[:6]: print("    UNKNOWN", u)
    for u in r.refuted[:4]: print("    REFUTED", u)
    for u in r.exceptions[:4]: print("    EXC", u)
    if r.assumptions: print("    assumes", r.assumptions)
