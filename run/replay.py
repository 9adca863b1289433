#!/usr/bin/env python3
"""replay.py FILE: runs a violation's failing input again on the real code."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
v = json.load(open(sys.argv[1]))
ctx = Context("quick", 1, 600)
try:
    a = v["driver"]
    if not a: print("no failing input; verifier output:", json.dumps(v["verifier"], indent=1)[:4000]); sys.exit(1)
    if a[0] == "digest":
        i = a.index("AGAINST")
        x, y = ctx.digest(v["configuration"], int(a[1]), int(a[2]), a[3:i]), ctx.digest(a[i + 1], int(a[1]), int(a[2]), a[3:i])
        print(x, y)
        bad = x != y
    else:
        san = a[-1] == "SAN"
        ran, f, _ = ctx.drive(v["configuration"], a[1], int(a[2]), int(a[3]), float(a[4]), a[5:-1] if san else a[5:], san)
        print(f)
        bad = bool(f)
    print("fails again" if bad else "does not fail")
    sys.exit(1 if bad else 0)
finally:
    ctx.close()
