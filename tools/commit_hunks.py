"""commit_hunks.py DIFF "idx,idx:Cnn:message" ... : commits groups of hunks of DIFF (numbered over the file) separately in /repo
as "fix: message" and records them in known_findings.json."""
import json
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(sys.argv[1]).read()
hunks = []
for f in re.split(r"(?m)^(?=diff --git)", d)[1:]:
    head, *h = re.split(r"(?m)^(?=@@)", f)
    hunks += [(head, x) for x in h]
kf = os.path.join(V, "known_findings.json")
data = json.load(open(kf))
for g in sys.argv[2:]:
    idx, prop, msg = g.split(":", 2)
    out, last = "", None
    for i in map(int, idx.split(",")):
        head, x = hunks[i]
        out += (head if head != last else "") + x
        last = head
    subprocess.run(["git", "-C", "/repo", "apply", "--recount", "-"], input=out, text=True, check=True)
    subprocess.run(["git", "-C", "/repo", "commit", "-qam", "fix: " + msg], check=True)
    h = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "-1"], capture_output=True, text=True).stdout.strip()
    data["fixed"].append("fixed: property=%s %s %s" % (prop, h, msg))
json.dump(data, open(kf, "w"), indent=1)
print(subprocess.run(["git", "-C", "/repo", "log", "--oneline", "-%d" % len(sys.argv[2:])], capture_output=True, text=True).stdout)
