#!/usr/bin/env python3
"""fixed.py <property> <key> <commit subject> <what failed>: records a repaired defect in known_findings.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, key, subject, what = sys.argv[1:5]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
h = [l.split()[0] for l in log if l.split(" ", 1)[1] == subject][0]
p = os.path.join(V, "known_findings.json")
k = json.load(open(p))
k.append(dict(property=pid, status="fixed", key=key, what="fixed: property=%s %s %s" % (pid, h, what)))
json.dump(k, open(p, "w"), indent=1)
open(p, "a").write("\n")
