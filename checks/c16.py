"""C16: verify says OK exactly when every archived file is intact."""
import os
import random

from sim import core, fixtures as F
from sim.common import W, cli, result, violation
from checks import c05
from checks.c05 import IN, SRR, build, build_srr
from checks.c06 import damage

from rescene import srr as rsrr

BUDGET = {"quick": (700, 4, 110), "thorough": (20000, 10, 2400)}
KINDS = ("EIO", "EACCES", "EMFILE", "SHORT", "KBINT")
SITE_WEIGHTS = {"read": 4, "open": 4}
RULE = ("A run is a release's SRR, its extracted files intact, damaged, "
        "missing or renamed, and 1-3 verify commands with 0-3 read faults.")
REAL = ["rescene.srr command line (verify)", "rescene.main.info",
        "rescene.rar", "rescene.utility.calculate_crc32", "io.Buffered*"]
STUB = c05.STUB


def plan(rng, tier):
    scn = c05.plan(rng, tier)
    scn.pop("place")
    inner = [n for i, s in enumerate(scn["sets"]) for n in build(s, i).order]
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        st = {}
        for n in inner:
            if rng.random() < .25:
                st[n] = {"kind": rng.choice(["missing", "renamed", "flip",
                                             "trunc", "grow", "zero", "swap",
                                             "flip", "hidden", "moved-flip",
                                             "decoy"]),
                         "at": rng.random(), "bit": rng.randrange(8)}
        ops.append({"do": "verify", "auto": rng.random() < .4, "files": st})
    scn["ops"] = ops
    return scn


def shrink(scn):
    for c in c05.shrink(dict(scn, place={}, ops=[])):
        yield dict(scn, sets=c["sets"], stored=c["stored"])
    for i, o in enumerate(scn["ops"]):
        for n in o["files"]:
            oo = list(scn["ops"])
            oo[i] = dict(o, files={k: v for k, v in o["files"].items()
                                   if k != n})
            yield dict(scn, ops=oo)


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    sets = [(s, build(s, i)) for i, s in enumerate(scn["sets"])]
    srr, vols, stored = build_srr(scn, sets)
    vs = []
    probes = {}
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            sim.op = i - 1
            for p in fs.tree(W):
                fs.rm(p)
            fs.put(SRR, srr)
            fs.mkdirs(IN)
            good = True
            ndmg = 0
            for s, rs in sets:
                for n in rs.order:
                    p = IN + "/" + n.replace("\\", "/")
                    data = rs.files[n]
                    st = op["files"].get(n)
                    k = st["kind"] if st else None
                    if k is None or (not data and k in (
                            "flip", "trunc", "zero", "moved-flip", "decoy")):
                        fs.put(p, data)
                        continue
                    ndmg += 1
                    base, ext = os.path.splitext(p)
                    if k == "moved-flip":   # renamed and damaged
                        fs.put("%s/x/%d/R%s" % (IN, ndmg, ext),
                               damage(data, dict(st, kind="flip")))
                        ok = False
                    elif k == "decoy":      # others of the same size too
                        fs.put("%s/a/%d/%s%s" % (IN, ndmg, "R", ext),
                               damage(data, dict(st, kind="flip")))
                        fs.put("%s/x/%d/R%s" % (IN, ndmg, ext), data)
                        fs.put("%s/z/%d/R%s" % (IN, ndmg, ext),
                               damage(data, dict(st, kind="zero")))
                        ok = op["auto"]
                    elif k in ("renamed", "hidden"):
                        fs.put("%s/x/%d/%sR%s" % (
                            IN, ndmg, os.path.basename(p),
                            os.path.splitext(p)[1]), data)
                        ok = k == "renamed" and op["auto"] or not data
                        if k == "hidden":
                            ok = op["auto"] or not data
                    elif k == "missing":
                        ok = not data   # empty files are not verified
                    else:
                        new = damage(data, st) if data else b"\1"
                        if data and k == "swap":
                            new = F.rb(random.Random(s["seed"] + 1),
                                       len(data))
                        if new == data and data:
                            new = damage(data, dict(st, kind="flip"))
                        fs.put(p, new)
                        ok = not data
                    good = good and ok
            before = fs.tree(W)
            argv = [SRR, "-q", "-i", IN]
            if op["auto"]:
                argv.append("-r")
            r = cli(sim, rsrr.main, argv)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            where = "op %d %s (%s)%s" % (i, {
                k: v["kind"] for k, v in op["files"].items()}, r,
                " after " + ", ".join("%s@%s %s" % (f[0], f[1], f[4])
                                      for f in fired) if fired else "")
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            ok = r.kind == "exit" and r.value in (None, 0)
            said = "All files OK!" in r.out
            nothing = all(not d for s, rs in sets for d in rs.files.values())
            if ok != said:
                vs.append(violation("status-and-message-differ", where
                                    + r.out))
                break
            if ok and not good:
                vs.append(violation("damage-reported-ok", "%s\n%s" % (
                    where, r.out)))
                break
            if good and not ok and not hard:
                vs.append(violation("intact-reported-bad", "%s\n%s%s%s" % (
                    where, r.tb, r.out, r.err)))
                break
            # a hard read fault may not be reported as success, unless a
            # renamed file was searched elsewhere
            if ok and [f for f in hard if f[1] in ("read", "open")]:
                vs.append(violation("unreadable-reported-ok", where))
                break
            if fs.tree(W) != before:
                vs.append(violation("verify-changed-files", where))
                break
            k = "ok" if ok else "bad"
            probes[k] = probes.get(k, 0) + 1
            if ndmg:
                probes["damaged_runs"] = probes.get("damaged_runs", 0) + 1
    return result(sim, vs, probes=probes)
