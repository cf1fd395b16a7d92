#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness from /repo's current tree and runs the recorded counterexample again.
Exit status 1 if it still violates the property, 0 if it does not."""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run


def main():
    d = json.load(open(sys.argv[1]))
    os.makedirs(run.BUILD, exist_ok=True)
    key = run.tree_hash([os.path.join(run.REPO, "immer"), os.path.join(run.VERIF, "engine"), os.path.join(run.VERIF, "harness")])
    rt, src, flags = d["spec"]
    exe = run.compile_spec((rt, src, tuple(flags)), key)
    r = subprocess.run([exe, *d["opts"], *([d["replay"]] if d["replay"] else d["command"][1 + len(d["opts"]):])])
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
