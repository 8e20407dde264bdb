#!/usr/bin/env python3
"""one.py <property> [unit substring]: run single units and print what fails."""
import sys, time, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props")]
from registry import PROPS
from concurrent.futures import ThreadPoolExecutor
pid, sub = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ""
us = PROPS[pid]["units"]
us = us() if callable(us) else us
us = [u for u in us if sub in u.name]
def go(u):
    u.prop = pid
    return u.prove(time.time() + 800)
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(go, us):
        print(r.status, r.unit.name, "%d/%d" % (r.discharged, r.obligations), "%.1fs" % r.seconds, "covers", r.covers, r.reason[-1500:] if r.reason else "")
        for f in r.failed[:12]:
            print("   ", f)
