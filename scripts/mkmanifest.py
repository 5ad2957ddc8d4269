#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (svsa/props/cNN.py) and the reasons below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, "scripts", "techniques.json")))
NA = {
 "C30": "whether calibrated search parameters reach a recall is a statistical fact about runtime data (dataset, queries, graph); no structural clause of the code is a necessary and checkable part of it",
 "C31": "a rounding-error bound over all finite inputs quantifies over floating-point values; a static argument in reach (interval analysis of unrolled SIMD reductions) does not bound it, and which elements enter the sum is decided by C21",
 "C32": "the property does not hold by design (files of an existing save are overwritten in place, there is no rename or journal), so there is no mechanism whose structure could be checked",
 "C33": "round-trip equality of search answers quantifies over runtime values of a whole index; its structural parts (every saved field restored, all entries persisted) are decided by C01, C05, C07 and C08",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in NA and os.path.exists(os.path.join(ROOT, "svsa", "props", i.lower() + ".py")):
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"python3 -m svsa.check {i}", thorough_cmd=f"python3 -m svsa.check {i}",
                           technique=t[0], level="other", level_note=t[1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 scripts/setup.py", checks=checks, not_applicable=na,
         notes="Static analysis only: every check compiles harness instantiations of /repo's current sources to LLVM IR, normalises them with tool/irx.cpp and decides the rules in svsa/props/<id>.py. No check executes code of /repo.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
