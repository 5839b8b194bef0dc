"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "driver"))
import props

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique="symbolic execution of the compiled crate's LLVM IR with SMT (Z3) deciding every branch and assertion; counterexamples replayed natively",
            level="model_checking",
            level_note="Holds for every value of the symbolic inputs within the bounds: " + p["bounds"] + ". Outside: " + p["outside"]
            + ". Trusted: rustc, the flash model, the own symbolic executor (sampled paths are re-run natively and compared) and Z3."))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="none", enable="no hooks: the checks use the public API and the traits of /repo", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
