#!/usr/bin/env python3
"""addfix.py PROP[*N]...: add (the first N to the first PROP, ...) every 'fix:' commit of /repo that known_findings.json does not list yet."""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../known_findings.json")
fs = json.load(open(p))["findings"]
have = {f.get("commit") for f in fs}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
props = []
for a in sys.argv[1:]:
    a, _, n = a.partition("*")
    props += [a] * int(n or 1)
for l in log:
    h, m = l.split(" ", 1)
    if m.startswith("fix: ") and h not in have:
        pid = props.pop(0) if len(props) > 1 else props[0]
        fs.append({"id": "F%02d" % (max(int(f["id"][1:]) for f in fs) + 1), "property": pid, "status": "fixed", "commit": h,
                   "what": f"fixed: property={pid} {h} {m[5:]}"})
        print(fs[-1]["what"])
open(p, "w").write('{"findings": [\n' + ",\n".join(" " + json.dumps(f) for f in fs) + "\n]}\n")
