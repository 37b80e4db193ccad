"""check.py <property> [--tier quick|thorough] [--only substring] [--jobs n] | --replay <file>

Decides one property: every contract of the property is (1) proved by symbolic execution of the current source of
/repo/cameratransform, path by path, and (2) run on concrete inputs through the unmodified package.
Exit 0: held; exit 1: VIOLATION line(s) printed."""
import re
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from vc import engine, load  # noqa: E402
from contracts import common  # noqa: E402


def contracts_of(prop):
    importlib.import_module("contracts." + prop.lower())
    return common.REG[prop]


def worker(conn, prop, idx, tier, seed, budget, floats):
    os.setsid()
    out = {"contract": None}
    try:
        sys.setrecursionlimit(6000)
        c = contracts_of(prop)[idx]
        out["contract"] = c.name
        out["about"] = c.about
        ct = load.real_package()
        tr, secs = floats
        t0 = time.time()
        found, n, ev = engine.search(c.fn, ct, seed, tr, secs, tol=c.tol, minrun=5)
        out.update(float_runs=n, float_evals=ev, float_s=time.time() - t0)
        if found:
            label, msg, h, s = found
            out["violation"] = {"label": label, "message": msg, "values": h.values, "choices": h.choices,
                                "dims": {k: v[0] for k, v in h.dims.items()}, "seed": s, "by": "concrete run"}
        conn.send(dict(out))
        if c.mode != "float":
            try:
                if c.setup is not None:
                    pkg = c.setup(load)
                else:
                    pkg = load.symbolic_package()
            except Exception as e:
                out["sym"] = {"complete": False, "unsupported": ["package not executable symbolically: %r" % (e,)], "goals": 0, "proved": 0}
                conn.send(dict(out, done=True))
                return
            r = engine.explore(c.name, c.fn, pkg, seed=seed, budget=budget, fork_timeout=1500 if tier == "quick" else 4000,
                               goal_timeout=8000 if tier == "quick" else 20000)
            out["sym"] = {"complete": bool(r.complete), "paths": r.paths, "infeasible": r.infeasible, "goals": r.goals, "proved": r.proved,
                          "by_backend": r.by_backend, "unknown": [(a, b[:300]) for a, b, _ in r.unknown[:10]], "n_unknown": len(r.unknown),
                          "unsupported": r.unsupported[:10], "refuted": [(a, b[:600], m) for a, b, m, _, _ in r.refuted[:5]],
                          "exceptions": [(a, b) for a, b, m, _, _ in r.exceptions[:5]], "witness": r.witness,
                          "assumptions": sorted(r.assumptions), "functions": sorted("%s:%s" % k for k in r.functions),
                          "z3_calls": r.z3_calls, "z3_s": r.z3_time, "time_s": r.time, "labels": sorted(r.labels)}
            if "violation" not in out:
                # replay on the real code
                for label, detail, model, choices, dims, valid in ([(a, b, m, ch, d, v) for a, b, m, ch, d, v in r.refuted_full()]
                                                                   + [("no-exception", a + " [" + b + "]", m, ch, d, False) for a, b, m, ch, d in r.exceptions]):
                    secs = 10 if tier == "quick" else 40
                    f2, n2, ev2 = engine.search(c.fn, ct, seed + 17, 400, secs, values=model, choices=choices, dims=dims, tol=c.tol)
                    if not f2:
                        f2, n3, ev3 = engine.search(c.fn, ct, seed + 18, 4000, secs, choices=choices, tol=c.tol)
                    if f2:
                        l2, msg, h, s = f2
                        out["violation"] = {"label": l2, "message": msg, "values": h.values, "choices": h.choices,
                                            "dims": {k: v[0] for k, v in h.dims.items()}, "seed": s,
                                            "by": "replay of the refuted obligation '%s': %s" % (label, detail[:400])}
                        break
                    if valid and "unreplayed" not in out:
                        out["unreplayed"] = {"label": label, "message": detail, "values": model,
                                             "choices": choices, "dims": dims, "seed": seed, "by": "verifier"}
        conn.send(dict(out, done=True))
    except BaseException as e:
        out["crash"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        try:
            conn.send(dict(out, done=True))
        except Exception:
            pass
    finally:
        conn.close()


def run(prop, tier, seed, only=None, jobs=None):
    cs = contracts_of(prop)
    todo = [i for i, c in enumerate(cs) if not only or only in c.name]
    jobs = jobs or min(8, os.cpu_count() or 4)
    ctx = mp.get_context("fork")
    scale = 1.0 if tier == "quick" else 4.0
    results = {}
    running = {}
    # longest first
    todo.sort(key=lambda i: -cs[i].budget)
    t_end = time.time() + (600 if tier == "quick" else 3000)
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            c = cs[i]
            a, b = ctx.Pipe(False)
            floats = (int(c.trials * (1 if tier == "quick" else 20)), c.float_s * (1 if tier == "quick" else 8))
            budget = c.budget * scale
            p = ctx.Process(target=worker, args=(b, prop, i, tier, seed, budget, floats))
            p.start()
            b.close()
            running[i] = [p, a, min(t_end, time.time() + budget * 1.5 + floats[1] + 90), {"contract": c.name, "about": c.about}]
        time.sleep(0.02)
        for i in list(running):
            p, a, dl, got = running[i]
            done = False
            try:
                while a.poll():
                    got = a.recv()
                    running[i][3] = got
                    done = done or got.get("done", False)
            except EOFError:
                done = True
                if not got.get("done"):
                    got["crash"] = got.get("crash", "the worker ended without a result")
            if time.time() > dl and not done:
                done = True
                got["timeout"] = True
            if done:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    p.kill()
                p.join()
                a.close()
                results[i] = got
                del running[i]
    return [results[i] for i in sorted(results)]


def replay(path):
    d = json.load(open(path))
    c = [c for c in contracts_of(d["property"]) if c.name == d["contract"]][0]
    ct = load.real_package()
    st, label, msg, h = engine.concrete(c.fn, ct, d["seed"], d["values"], d["choices"], d.get("dims"), c.tol)
    print(st, label, msg)
    return 1 if st == "violation" else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args()
    if o.replay:
        return replay(o.replay)
    tier = o.tier or ("thorough" if o.thorough else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    res = run(o.prop, tier, seed, o.only, o.jobs)
    return report(o.prop, tier, seed, res, time.time() - t0, o)


def report(prop, tier, seed, res, wall, o):
    from report import write_evidence
    bad = []
    code = 0
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    broken = []
    for r in res:
        s = r.get("sym") or {}
        state = "proved" if s.get("complete") and s.get("witness") else "bounded"
        print("%-46s %-8s paths %-4s obligations %s/%s concrete runs %s%s" % (
            r["contract"], state, s.get("paths", "-"), s.get("proved", 0), s.get("goals", 0), r.get("float_runs", 0),
            "  (%.1fs)" % (s.get("time_s", 0) + r.get("float_s", 0))))
        for u in s.get("unsupported", []):
            print("    undecided: %s" % u[:300])
        for u in s.get("unknown", [])[:3]:
            print("    undecided obligation: %s" % (u,))
        if r.get("timeout"):
            print("    undecided: time limit")
        if r.get("crash"):
            print("    " + r["crash"])
            broken.append(r)
        if not r.get("float_runs") and not s.get("complete"):
            print("    nothing could be evaluated")
        v = r.get("violation")
        tail = ""
        if v is None and r.get("unreplayed"):
            v = r["unreplayed"]
            tail = " no-failing-input-found"
        if v is not None:
            rec = dict(v, property=prop, contract=r["contract"], about=r.get("about"), verifier=s.get("refuted"),
                       exceptions=s.get("exceptions"), undecided=s.get("unknown"))
            name = "%s-%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9._-]+", "_", r["contract"]), hashlib.sha1(repr((r["contract"], v)).encode()).hexdigest()[:8])
            path = os.path.join(rdir, name)
            with open(path, "w") as fp:
                json.dump(rec, fp, indent=1, default=str)
            print("    contract '%s', obligation '%s': %s" % (r["contract"], v["label"], v["message"][:500]))
            print("    inputs: %s choices: %s" % (json.dumps(v["values"], default=str)[:600], v["choices"]))
            bad.append((r["contract"], v["label"], path, tail))
            code = 1
    write_evidence(HERE, prop, tier, seed, res, wall, bad)
    for c, l, path, tail in bad:
        print("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
    if broken and code == 0 and not any(r.get("float_runs") for r in res):
        return 2
    if code == 0:
        print("property %s held: %d contracts (%d proved for all inputs), %.1f s" % (
            prop, len(res), sum(1 for r in res if (r.get("sym") or {}).get("complete")), wall))
    return code


if __name__ == "__main__":
    sys.exit(main())
