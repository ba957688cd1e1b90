#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json.  A property is claimed when contracts/<ID>.cpp exists."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, level="proof", note="", tech="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe,
                  level=level, note=note, tech=tech, na=na))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

TECH = "contract-based deductive verification of the real code (LLVM IR of /repo, symbolic execution with contracts and loop invariants, z3/cvc5)"
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists("%s/contracts/%s.cpp" % (V, p["id"])):
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"] or TECH, "level": p["level"],
                       "level_note": p["note"] or "All obligations generated from /repo's current source are discharged for all inputs over real arithmetic; the native runs of the same contracts are bounded and not counted as proof."})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no contract has been built for it yet"})
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(P), "properties", len(checks), "claimed")
