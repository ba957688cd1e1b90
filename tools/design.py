#!/usr/bin/env python3
"""DESIGN.md = docs/design_head.md + a section per property (from properties.jsonl, contracts/*.cpp, seeded/*/meta.json, known_findings.txt)"""
import json, re, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + "/docs/design_head.md").read()]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
notes = json.load(open(V + "/docs/notes.json")) if os.path.exists(V + "/docs/notes.json") else {}
seeds = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((d.split("/")[-2], m["needs"]))
known = open(V + "/known_findings.txt").read().split("\n")
out.append("\n## Properties, contracts, bounds\n")
for p in sorted(props, key=lambda p: p["id"]):
    i = p["id"]
    f = "%s/contracts/%s.cpp" % (V, i)
    out.append("### %s — %s\n" % (i, p["title"]))
    out.append(p.get("statement", "") + "\n")
    if not os.path.exists(f):
        continue
    s = open(f).read()
    src = " ".join(re.findall(r"// VC-SOURCES: (.*)", s))
    out.append("Verified text: `contracts/%s.cpp` together with the headers it includes%s, compiled afresh from /repo on every run.\n" % (i, " and `%s`" % src.replace(" ", "`, `") if src else ""))
    proved = re.findall(r'VC_DRIVER\((\w+), "([^"]*)"', s)
    bounded = re.findall(r'VC_DRIVER_BOUNDED\((\w+),\s*"([^"]*)",\s*"([^"]*)"', s)
    native = re.findall(r'VC_NATIVE\((\w+),\s*"([^"]*)",\s*"([^"]*)"', s)
    if proved:
        out.append("Discharged for all inputs:\n" + "\n".join("- `%s`: %s" % x for x in proved) + "\n")
    if bounded:
        out.append("Bounded (obligations discharged by the verifier within the bound, not counted as proved):\n" + "\n".join("- `%s`: %s — bound: %s" % x for x in bounded) + "\n")
    if native:
        out.append("Native stand-ins only (the contract executed on the real code under ASan/UBSan, never counted as proved):\n" + "\n".join("- `%s`: %s — %s" % x for x in native) + "\n")
    stubs = re.findall(r"VC_STUB\((\w+)", s)
    if stubs:
        out.append("Contracts assumed at call sites and proved in their own driver: %s.\n" % ", ".join("`%s`" % x for x in stubs))
    if i in notes:
        out.append(notes[i] + "\n")
    fx = [k for k in known if "property=%s " % i in k]
    if fx:
        out.append("Defects found:\n" + "\n".join("- " + k for k in fx) + "\n")
    if i in seeds:
        out.append("Planted changes (all confirmed in a scratch copy):\n" + "\n".join("- `%s` — needs %s" % x for x in seeds[i]) + "\n")
out.append("\n## Not applicable\n")
for n in man["not_applicable"]:
    out.append("- %s: %s" % (n.get("property", n.get("id")), n["reason"]))
if not man["not_applicable"]:
    out.append("Every property listed in properties.jsonl is claimed. What was left out is listed above under *Outside what is stated*.")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
