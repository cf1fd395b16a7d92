#!/usr/bin/env python3
"""Compares the reduction of the schedule explorer with the search without reduction.

For each configuration: every trace (class of executions equal up to the order of independent operations) that the
search without reduction finds must be explored by the reduction, once. Also: every program of harness/selftest.cpp
with a known error must be reported. Not part of a check; prints the table that DESIGN.md quotes.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import run as R
from checks.threads import conc, share

KEY = R.tree_hash([os.path.join(R.REPO, "immer"), os.path.join(R.VERIF, "engine"), os.path.join(R.VERIF, "harness")])
os.makedirs(R.BUILD, exist_ok=True)
CASES = [("selftest", conc("selftest"), []),
         ("atom rc, 1 operation each", conc("atom_conc", "POLICY=0"), ["threads=2", "len=1"]),
         ("atom gc, 2 operations each", conc("atom_conc", "POLICY=2"), ["threads=2", "len=2", "mask=15"]),
         ("atom gc, 3 threads", conc("atom_conc", "POLICY=2"), ["threads=3", "len=1"]),
         ("heap free list", conc("heaps_conc", "HEAP=0"), ["threads=2", "len=2"]),
         ("heap thread local free list", conc("heaps_conc", "HEAP=1"), ["threads=2", "len=2"]),
         ("vector of 4", share(0), ["threads=2", "len=1", "mask=%d" % (1 | 2 | 32 | 128 | 1024), "s0=4", "s1=5"]),
         ("box", share(6), ["threads=2", "len=1", "s0=0", "s1=1"]),
         ("map", share(4), ["threads=2", "len=1", "s0=18", "s1=19", "mask=%d" % (2 | 32)])]
bad = 0
for name, spec, opts in CASES:
    exe = R.compile_spec(spec, KEY)
    res = []
    for mode in ([], ["naive=1"]):
        rc, out, err = R.run_proc([exe, *opts, *mode, "count=1", "seconds=600"], 900)
        st, v = R.parse(out)
        if v or st is None:
            print(name, mode, v, err[-300:])
            bad += 1
            break
        res.append(st)
    if len(res) == 2:
        a, b = res
        ok = a["schedules"] == b["distinct"] == a["distinct"] and not a["capped"] and not b["capped"]
        bad += not ok
        print("%-32s reduction: %d schedules, %d traces; without: %d schedules, %d traces%s" % (name, a["schedules"], a["distinct"], b["schedules"], b["distinct"], "" if ok else "  DIFFERENT" + (" (capped)" if a["capped"] or b["capped"] else "")), flush=True)
exe = R.compile_spec(conc("selftest"), KEY)
for k in range(100, 107):
    rc, out, err = R.run_proc([exe, "only=%d" % k], 300)
    st, v = R.parse(out)
    bad += not v
    print("known error %d: %s" % (k, v["msg"][:100] if v else "MISSED"))
sys.exit(bad != 0)
