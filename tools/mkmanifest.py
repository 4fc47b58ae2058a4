#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
na_path = os.path.join(V, "not_applicable.json")
if os.path.exists(na_path):
    NA = json.load(open(na_path))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--grep=^hooks:"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "SLIDE_VERIF_HOOKS", "enable": "-DSLIDE_VERIF_HOOKS plus one of -DSLIDE_VERIF_T_MODEL=<0|1|2>, -DSLIDE_VERIF_DATASTORE_CELL=<level>, -DSLIDE_VERIF_DATASTORE_MODULE=<level>, -DSLIDE_VERIF_DATASTORE_COOL=<0|1|2>, -DSLIDE_VERIF_DATASTORE_BATT=<0|2> (set by /verif/run.py per build variant)",
              "source_commits": [h.split()[0] for h in hooks if h]},
    "checks": [dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                    technique=CHECKS[i]["technique"], level=CHECKS[i].get("level", "exploration"), level_note=CHECKS[i]["note"]) for i in ids if i in CHECKS],
    "not_applicable": [dict(property=i, reason=NA.get(i, "no check yet in this revision")) for i in ids if i not in CHECKS],
    "notes": "Checks rebuild the library from /repo with the harness CMake project (harness/CMakeLists.txt adds /repo/src), then search generated inputs; see DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
