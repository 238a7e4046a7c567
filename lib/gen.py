#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and the checks that exist."""
import json, os, subprocess
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C44": "grayc/src/vendor/sqlite3.c is not in the repository and cannot be fetched, so programs using the "
             "module do not link here: there is no execution to monitor."}
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
checks, na = [], []
for p in P:
    s = f"checks/{p['id'].lower()}.py"
    if p["id"] in NA or not os.path.exists(f"{V}/{s}"):
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "its check is not built yet")))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 {s}", thorough_cmd=f"python3 {s} --thorough",
                       technique=p["technique"], level="exploration", level_note=p["note"]))
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True,
                                              text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("verif hooks")]
m = dict(version=1, setup_cmd="python3 lib/setup.py",
         hooks=dict(guard="GRAY_VERIF", enable="the checks build the runtime in /verif/.build with -DGRAY_VERIF "
                    "(arena counters) and -DGRAY_VERIF_ASAN (arena poisoning); without them the code is unchanged",
                    source_commits=hooks[::-1]),
         checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
