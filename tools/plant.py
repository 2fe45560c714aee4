#!/usr/bin/env python3
"""plant.py FILE.py [check-args]: turn a bug description into seeded/<id>/ and
confirm it: builds, stable tests pass, demo 0 without / nonzero with the
patch, then run the property's quick check against the patched copy.

FILE.py defines ID, PROP, NEEDS, BREAKS, EDITS [(path, old, new)], DEMO."""
import json
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOOT = '''import os, sys, shutil, tempfile
REPO = os.getcwd()
for p in (REPO, os.path.join(REPO, "usenet"), os.path.join(REPO, "bin")):
    sys.path.insert(0, p)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.append(HERE)
import fx
T = tempfile.mkdtemp(prefix="demo_")
os.chdir(T)
def put(name, data):
    p = os.path.join(T, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    return p
def get(name):
    with open(os.path.join(T, name), "rb") as f:
        return f.read()
def done(bad):
    sys.stdout.flush()
    os.chdir("/")
    shutil.rmtree(T, ignore_errors=True)
    os._exit(1 if bad else 0)
def crash(tp, v, tb):
    import traceback
    traceback.print_exception(tp, v, tb)
    done(True)
sys.excepthook = crash
'''


def edit(path, old, new):
    s = open(path, newline="").read()
    crlf = "\r\n" in s
    if crlf:
        s = s.replace("\r\n", "\n")
    assert s.count(old) == 1, (path, s.count(old), old)
    s = s.replace(old, new)
    if crlf:
        s = s.replace("\n", "\r\n")
    open(path, "w", newline="").write(s)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    i = ns["ID"]
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    scratch = "/tmp/plant_" + i
    shutil.rmtree(scratch, ignore_errors=True)
    sh(["git", "clone", "-q", REPO, scratch])
    for p, o, n in ns["EDITS"]:
        edit(os.path.join(scratch, p), o, n)
    diff = sh(["git", "-C", scratch, "diff"]).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(BOOT + ns["DEMO"])
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy(os.path.join(V, "sim", "fixtures.py"),
                os.path.join(d, "fx.py"))
    if ns.get("MEDIA"):
        m = open(os.path.join(V, "sim", "media.py")).read()
        open(os.path.join(d, "media.py"), "w").write(
            m.replace("from .fixtures import", "from fx import"))
    for f in ns.get("FILES", ()):   # further simulator files
        m = open(os.path.join(V, "sim", f)).read()
        open(os.path.join(d, f), "w").write(
            m.replace("from . import fixtures as F", "import fx as F"))
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"],
               "what_it_breaks": ns["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok = True
    t = open("/opt/vp/test.sh").read().replace("/repo", scratch)
    tp = "/tmp/plant_test_%s.sh" % i
    open(tp, "w").write(t)
    sh(["bash", tp, "/tmp/plant_%s.json" % i])
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    o = json.load(open("/tmp/plant_%s.json" % i))
    miss = [x for x in b if x not in o["passed"]]
    if miss:
        ok = False
        print("TESTS FAIL:", miss)
    for where, want in ((REPO, 0), (scratch, 1)):
        p = sh(["bash", os.path.join(d, "demo.sh")], cwd=where)
        good = (p.returncode == 0) == (want == 0)
        print("demo in %s: exit %d %s" % (where, p.returncode,
                                          "" if good else "WRONG"))
        if not good or "-v" in sys.argv:
            print(p.stdout.decode("utf-8", "replace")[-3000:])
        ok &= good
    print("plant %s: %s" % (i, "confirmed" if ok else "NOT VALID"))
    if ok or "-f" in sys.argv:
        for prop in ns.get("CHECKS", [ns["PROP"]]):
            p = sh([os.path.join(V, "check"), prop, "quick", "--no-evidence"],
                   env=dict(os.environ, VERIF_REPO=scratch, VERIF_SEED="1"))
            out = p.stdout.decode("utf-8", "replace")
            print("check %s exit %d\n%s" % (prop, p.returncode, "\n".join(
                x[:300] for x in out.splitlines()
                if not x.startswith("  probes"))[-1800:]))
    shutil.rmtree(scratch, ignore_errors=True)
    for f in (tp, "/tmp/plant_%s.json" % i):
        if os.path.exists(f):
            os.unlink(f)


main()
