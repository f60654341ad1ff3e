#!/usr/bin/env python3
"""Checks that the toolchain is there and builds every harness against /repo's current tree (the checks rebuild by
themselves whatever changed since)."""
import os, sys, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, props
jobs = {}
for p in props.PROPS.values():
    for x in [p] + p.get("parts", []):
        jobs.setdefault(x["harness"], set()).update(vlib.usable(x["configs"]))
bad = 0
with cf.ThreadPoolExecutor(4) as ex:
    for f in [ex.submit(vlib.build, h, sorted(c)) for h, c in jobs.items()]:
        try: f.result()
        except (vlib.CheckError, vlib.DoesNotCompile) as e: print(e) # the check of the property says so
r = vlib.java(["tlc2.TLC", "-h"], timeout=60)
if "TLC" not in r.stdout: print("TLC does not run:", r.stdout[-300:], r.stderr[-300:]); bad = 1
print("setup", "failed" if bad else "done")
sys.exit(bad)
