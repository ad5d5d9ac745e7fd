#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, COMMON
props = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py checks.py && clang++ --version",
     "checks": [dict(property=p, quick_cmd=f"python3 run.py {p} --tier quick", thorough_cmd=f"python3 run.py {p} --tier thorough",
                     technique=c["technique"], level="exploration", level_note=c["note"] + " " + COMMON)
                for p, c in sorted(CHECKS.items())],
     "not_applicable": [dict(property=p, reason="check not built yet") for p in props if p not in CHECKS],
     "notes": "See DESIGN.md. run.py builds the library from /repo's working tree into build/, which git ignores."}
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
