#!/usr/bin/env python3
"""kf.py fixed PROP COMMIT WHAT | kf.py open PROP ID WHAT [cell...]   (edits known_findings.json by hand-run command)"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
a = sys.argv[1:]
if a[0] == "fixed":
    d["findings"].append(dict(id=f"{a[1]}-fixed-{a[2]}", property=a[1], status="fixed", commit=a[2], what=a[3],
                              record=f"fixed: property={a[1]} {a[2]} {a[3]}"))
elif a[0] == "open":
    d["findings"] = [e for e in d["findings"] if e["id"] != a[2]]
    d["findings"].append(dict(id=a[2], property=a[1], status="open", what=a[3], cells=a[4:]))
elif a[0] == "drop":
    d["findings"] = [e for e in d["findings"] if e["id"] != a[1]]
json.dump(d, open(p, "w"), indent=1)
