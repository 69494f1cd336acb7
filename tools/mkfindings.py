"""Rewrites the "fixed" entries of known_findings.json from the fix: commits of /repo (development tool; no check runs it).
tools/fixes.json maps the start of a commit subject to the property that commit repairs."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "known_findings.json")
old = json.load(open(p))["findings"]
props = json.load(open(os.path.join(V, "tools", "fixes.json")))
out = [f for f in old if f["status"] == "open"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode().splitlines()
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        if s not in props:
            print("no property for:", s)
        pid = props.get(s, "?")
        out.append({"property": pid, "status": "fixed", "id": h, "what": "fixed: property=%s %s %s" % (pid, h, s)})
json.dump({"findings": out}, open(p, "w"), indent=1)
