#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per file checks/Cnn.py."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; runs of the real code judged against it by TLC"
NOTE = ("The step machine of the specification is model-checked exhaustively at the bound given in the evidence; "
        "the recorded runs of the code built from the working tree are each accepted or rejected by TLC with the "
        "property's clauses. Trusted: the driver's recording, the compiler, TLC. Inputs beyond the enumerated "
        "ones are sampled.")
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
have = [p for p in props if os.path.exists("%s/checks/%s.py" % (V, p))]
NA = {}
m = dict(version=1, setup_cmd="python3 lib/setup.py",
         hooks=dict(guard="none", enable="The checks compile /repo's sources unchanged; no hooks are needed.", source_commits=[]),
         checks=[dict(property=p, quick_cmd="python3 checks/%s.py" % p, thorough_cmd="python3 checks/%s.py" % p,
                      evidence_file="evidence/%s.json" % p, technique=TECH, level="model_checking", level_note=NOTE) for p in have],
         not_applicable=[dict(property=p, reason=NA.get(p, "No check has been built for it yet.")) for p in props if p not in have],
         notes="See DESIGN.md. Known findings: known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(have), "checks,", len(m["not_applicable"]), "not claimed")
