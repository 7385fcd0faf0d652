#!/usr/bin/env python3
# Writes /verif/properties.jsonl and /verif/MANIFEST.json.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "competition_engine.go"; EI = "competition_engine_internal.go"; TH = "competition_engine_table_handler.go"
P = []
def prop(id, title, st, over, qt, why, files, mech, note, tech=None, na=None):
    P.append(dict(id=id, title=title, st=st, over=over, qt=qt, why=why, files=files, mech=mech, note=note, tech=tech, na=na))

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["st"],
            "quantifier": {"over": p["over"], "text": p["qt"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
TR = ("Trusted: the instrumenter's rewriting (go statements, sync, time, rand, map ranges), sequentially consistent interleavings at statement granularity, "
      "and, where a table backend is needed, the in-memory table backend, whose contract is checked against the real one by C24.")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: check.sh rewrites a copy of the working tree (see DESIGN.md)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": p["tech"] or "explicit enumeration of every bounded operation/timer history on the instrumented implementation (stateless model checking)",
            "level": "model_checking", "level_note": p["note"] + " " + TR, "evidence_file": "evidence/%s.json" % p["id"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
