"""writes MANIFEST.json from properties.jsonl and the contracts that exist"""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from contracts import common
BOUNDED = {
    "C05": "several-step histories", "C06": "number types of a real file", "C08": "a round trip through real orientations", "C09": "an end-to-end run",
    "C10": "a there-and-back run on floats", "C11": "round trips on floats", "C12": "random coordinates as numpy numbers, further spellings",
    "C13": "meshes of more triangles", "C14": "collinear corners, an end-to-end run", "C15": "accuracy of the interpolated inverse of the lens",
    "C16": "dtypes, lists, empty batches", "C17": "a run with the real cv2.remap", "C18": "long runs", "C19": "complete images with lens (the rays are proved)",
    "C20": "cylindrical and equirectangular images of rotated scenes", "C21": "horizon, cone and table of real cameras, walk along the border", "C23": "real cameras", "C24": "real correspondences",
    "C25": "the real optimiser, impossible starts", "C26": "real image files"}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(here, "contracts", i.lower() + ".py")):
        importlib.import_module("contracts." + i.lower())
        bounded = sum(c.mode == "float" for c in common.REG[i])
        proved = len(common.REG[i]) - bounded
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python -B check.py %s --tier quick" % i,
            "thorough_cmd": "/opt/venv/bin/python -B check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contracts on the real functions, discharged by path-wise symbolic execution (exact algebra normal form + z3)",
            "level": "proof",
            "level_note": "%d contracts are proved for all inputs over exact reals by executing the current source symbolically, batches of any length "
                          "by one generic row; %s. Trusted: the executor in vc/, its library contracts, z3; rounding is not modelled (every "
                          "contract is also run on floats)." % (proved, "%d are bounded (concrete runs only: %s)" % (bounded, BOUNDED[i])
                                                                if bounded else "none is bounded by design")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
