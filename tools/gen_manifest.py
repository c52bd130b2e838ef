"""writes MANIFEST.json from lib/props.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
import props
TECH = dict(symx="symbolic execution of the real library compiled with a symbolic symbol type; every branch and assertion decided by z3 over all symbol values",
            llsym="path-forking symbolic execution of the LLVM IR of the real library; every branch and assertion decided by z3 over bit-vectors")
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i not in props.PROPS: continue
    q = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, technique=" + ".join(TECH[e] for e in q["engines"]), level="model_checking",
        level_note="Holds for every value of the symbolic inputs within: " + q["bounds"]["quick"] + ". Outside: " + q["outside"] + ". Trusted: " + q["assumptions"][0]))
na = [dict(property=json.loads(l)["id"], reason="see DESIGN.md") for l in open(os.path.join(H, "properties.jsonl")) if json.loads(l)["id"] not in props.PROPS]
m = dict(version=1, setup_cmd="./check build", checks=checks, not_applicable=na, notes="No hooks in /repo: everything goes through the public API. Repairs of defects are listed in KNOWN_FINDINGS.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
