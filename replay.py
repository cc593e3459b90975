#!/usr/bin/env python3
"""replay.py FILE: rebuild from /repo and execute the recorded run; exit 1 if the violation reproduces."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, check as C
text = open(sys.argv[1]).read()
m = re.search(r"# property (\S+) binary (\S+)", text)
bins = B.build([m.group(2)])
r = C.replay(bins[m.group(2)], text)
print(json.dumps({k: r[k] for k in ("status", "kind", "msg", "hash", "steps", "faults")}, indent=1))
for s in C.symbolise(bins[m.group(2)], r.get("pcs2", []) + r.get("pcs", [])): print("  ", s)
h = re.search(r"# hash (\S+);", text)
if r["status"] == 2:
    print("VIOLATION property=%s replay=%s" % (m.group(1), sys.argv[1]))
    print("hash %s" % ("identical to the recorded one" if h and h.group(1) == r["hash"] else "differs from the recorded one (the code changed)"))
sys.exit(1 if r["status"] == 2 else 0 if r["status"] == 1 else 2)
