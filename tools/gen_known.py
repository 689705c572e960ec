"""Writes the "fixed" list of known_findings.json from the fix: commits in /repo and this mapping (subject -> property)."""
import json
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(here, "tools", "fix_map.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        if s not in MAP:
            sys.exit("no property given for: " + s)
        fixed.append("fixed: property=%s %s %s" % (MAP[s], h, s))
p = os.path.join(here, "known_findings.json")
d = json.load(open(p))
d["fixed"] = fixed
json.dump(d, open(p, "w"), indent=1)
print(len(fixed))
