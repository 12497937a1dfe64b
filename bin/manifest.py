#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/info.json and the
harnesses present under checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
info = json.load(open(V + "/checks/info.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in info and os.path.exists(V + "/checks/%s.cc" % i.lower()):
        x = info[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                       "technique": x["technique"], "level": x.get("level", "model_checking"),
                       "level_note": x["bounds"] + " Trusts: " + "; ".join(x["assumptions"]) + ".",
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": info.get(i, {}).get("na", "model checking applies, the harness for it is not built yet, so it is not claimed")})
m = {"version": 1, "setup_cmd": "python3 bin/check.py --build", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "EXSEISDAT_MODEL_CHECK", "enable": "mc/Makefile compiles /repo's sources with -DEXSEISDAT_MODEL_CHECK; the hooks let a check choose the memory limits of the set layer and of the 4D binning and the block size of makerep", "source_commits": ["de7b334", "c9756a8", "50940d8"]},
     "notes": "The checks compile /repo's sources against a model of MPI (mc/mpi/mpi.h). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
