"""evidence files"""
import json
import os

TRUSTED = [
    "the symbolic executor in /verif/vc (its numpy, math, json and scipy contracts, the rational-function normal form, the path enumeration)",
    "z3 (python bindings of the tool venv)",
    "CPython executing the package source compiled from /repo at run time",
]
ASSUME = [
    "machine arithmetic is treated as exact real arithmetic (rounding, overflow and signed zeros are not modelled; the concrete runs use floats with a tolerance)",
    "numpy, math, scipy and json functions obey the contracts written in vc/arr.py, vc/sym.py and vc/load.py",
    "a batch of symbolic length is represented by one generic row: sound for functions that treat rows alike, any operation that mixes rows is refused as unsupported",
]


def write_evidence(here, prop, tier, seed, res, wall, bad):
    ob = di = paths = z3c = 0
    z3s = 0.0
    be = {}
    funcs, assumptions = set(), set()
    proved, bounded = [], []
    runs = ev = 0
    for r in res:
        s = r.get("sym") or {}
        ob += s.get("goals", 0)
        di += s.get("proved", 0)
        paths += s.get("paths", 0)
        z3c += s.get("z3_calls", 0)
        z3s += s.get("z3_s", 0.0)
        for k, v in (s.get("by_backend") or {}).items():
            be[k] = be.get(k, 0) + v
        funcs |= set(s.get("functions", []))
        assumptions |= set(s.get("assumptions", []))
        runs += r.get("float_runs", 0)
        ev += r.get("float_evals", 0)
        if s.get("complete") and s.get("witness"):
            proved.append({"contract": r["contract"], "states": r.get("about"), "paths": s["paths"], "obligations": s["goals"],
                           "discharged": s["proved"], "paths_with_witness": s["witness"], "solver_s": round(s["z3_s"], 2)})
        else:
            bounded.append({"contract": r["contract"], "states": r.get("about"), "bound": "%d concrete runs" % r.get("float_runs", 0),
                            "obligations": s.get("goals", 0), "discharged": s.get("proved", 0),
                            "why": (s.get("unsupported") or s.get("unknown") or (["stopped by the time limit"] if r.get("timeout") else ["bounded by design"]))[:3]})
    d = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": ob, "discharged": di,
            "checker_cmd": "/opt/venv/bin/python -B check.py %s --tier %s" % (prop, tier),
            "trusted_base": TRUSTED,
            "discharged_by_back_end": be, "paths": paths, "solver_calls": z3c, "solver_s": round(z3s, 2),
            "functions_under_contract": sorted(funcs),
            "contracts_proved": proved, "contracts_bounded": bounded,
            "evaluations": runs, "contract_evaluations_in_concrete_runs": ev,
            "rule": "concrete runs: each contract on random and special inputs through the unmodified package, counted when its precondition held",
        },
        "assumptions": ASSUME + sorted(assumptions),
        "wall_s": round(wall, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", prop + ".json"), "w") as fp:
        json.dump(d, fp, indent=1, default=str)
