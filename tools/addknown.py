#!/usr/bin/env python3
"""addknown.py ID REASON [REGEX]: records the violations of the last run of ID, those whose key matches, as known findings (by hand, after review)"""
import sys, re, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
pid, why = sys.argv[1:3]; rx = sys.argv[3] if len(sys.argv) > 3 else ""
t = open(os.path.join(V, "evidence", pid + ".violations.txt")).read().split("\n")
with open(os.path.join(V, "known_findings.txt"), "a") as f:
    for i in range(0, len(t) - 2, 3):
        k = t[i+2].strip()[5:]
        if re.search(rx, k): f.write("known: property=%s key=%s :: %s: %s\n" % (pid, k, t[i+1].strip(), why)); print(k)
