#!/usr/bin/env python3
"""recheck.py [-v] [-c CXX] ID...: run the check of the property of a planted
bug (or check CXX) against a scratch copy with the bug."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
verbose = "-v" in args
args = [a for a in args if a != "-v"]
chk = None
if "-c" in args:
    i = args.index("-c")
    chk = args[i + 1]
    del args[i:i + 2]
for i in args or sorted(os.listdir(V + "/seeded")):
    d = os.path.join(V, "seeded", i)
    prop = chk or json.load(open(d + "/meta.json"))["property"]
    scratch = "/tmp/recheck_" + i
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", scratch], check=True)
    subprocess.run(["git", "-C", scratch, "apply", d + "/patch.diff"],
                   check=True)
    r = subprocess.run([V + "/check", prop, "quick", "--no-evidence"],
                       env=dict(os.environ, VERIF_REPO=scratch),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    cls = [l.split("(")[0].strip() for l in r.stdout.splitlines()
           if l.strip().startswith("class:")]
    print("%-34s %s exit %d %s" % (i, prop, r.returncode, " ".join(cls)))
    if verbose:
        print(r.stdout[-3000:])
    sys.stdout.flush()
    shutil.rmtree(scratch, ignore_errors=True)
