#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "build tag verif", "enable": "go test -tags verif (run.py builds /verif/harness against /repo with it)",
               "source_commits": ["acb0e86"]},
     "checks": [{"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                 "technique": PROPS[i]["technique"], "level": PROPS[i].get("level", "exploration"),
                 "level_note": PROPS[i]["note"] + (" Assumes: " + "; ".join(PROPS[i]["assumptions"]) + "." if PROPS[i]["assumptions"] else "")}
                for i in ids if i in PROPS],
     "not_applicable": [{"property": i, "reason": "its check is still being built"} for i in ids if i not in PROPS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
