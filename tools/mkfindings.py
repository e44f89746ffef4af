#!/usr/bin/env python3
"""Writes the 'fixed:' lines of known_findings.txt from the fix commits of /repo (run by hand)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip("\n").split("\t") for l in open(os.path.join(V, "tools", "fixmap.tsv")) if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split("\t")
    if not s.startswith("fix: "):
        continue
    m = [p for p, key in MAP if key in s]
    if not m:
        sys.exit("no property for: " + s)
    out.append("fixed: property=%s %s %s" % (m[0], h, s[5:]))
path = os.path.join(V, "known_findings.txt")
keep = [l.rstrip("\n") for l in open(path)] if os.path.exists(path) else []
keep = [l for l in keep if l.startswith("{")]
open(path, "w").write("\n".join(out + keep) + "\n")
