"""C02: whatever happens to the process while it replaces an existing
SRR/SRS file, the old or the complete new file is there afterwards."""
import os
import random

from sim import core, fixtures as F
from sim.common import STATE, W, cli, result, violation
from checks import c01
from checks.c01 import (SRR, after_rar, apply_op, build_srr, expected,
                        failed, fdata)

import rescene
from rescene import srr as rsrr

BUDGET = {"quick": (220, 16, 120), "thorough": (5000, 40, 2400)}
KINDS = ("CRASH", "TORN", "KBINT")
MAXFAULTS = 1
SITE_WEIGHTS = {"rename": 5, "unlink": 5, "write": 3, "creat": 3}
RULE = ("A run is a history of operations that replace an existing SRR file "
        "(stored file edits, re-creation over an existing file) with one "
        "process death, torn write or Ctrl+C at a chosen system call, "
        "followed by a restart and the rest of the history; non-trivial when "
        "the fault fired. Distinct = distinct event log.")
REAL = c01.REAL + ["rescene.main.create_srr", "rescene.utility "
                   "create_temp_file_name/replace_result"]
STUB = c01.STUB
ASSUMPTIONS = ["crash model: process death; every completed write() survives, "
               "user space buffers are lost; power loss is not modelled (the "
               "code never calls fsync and promises nothing there)"]


def relset(init):
    rng = random.Random("rel%s" % init["seed"])
    return F.rarset(rng, base="rel", files=[("m.mkv", F.rb(rng, 700))],
                    volsize=300, style="old")


def plan(rng, tier):
    scn = c01.plan(rng, tier)
    ops = [o for o in scn["ops"]][:rng.randint(1, 3)]
    if rng.random() < .4:
        ops.insert(rng.randrange(len(ops) + 1), {
            "do": "create", "sfv": rng.random() < .6,
            "store": rng.sample(sorted(scn["files"]), min(
                len(scn["files"]), rng.randint(0, 2))),
            "answer": rng.choice(["-y", "-y", "ask-y", "ask-n", "-n"])})
    scn["ops"] = ops
    return scn


def shrink(scn):
    for i, op in enumerate(scn["ops"]):
        if op["do"] == "create" and op["store"]:
            o = dict(op, store=[])
            yield dict(scn, ops=scn["ops"][:i] + [o] + scn["ops"][i + 1:])
        if op["do"] in ("add", "remove") and len(op["files"]) > 1:
            o = dict(op, files=op["files"][:1])
            yield dict(scn, ops=scn["ops"][:i] + [o] + scn["ops"][i + 1:])


def run_op(sim, op, rs):
    if op["do"] != "create":
        return apply_op(sim, op)
    argv = [W + "/rel.sfv2/rel.sfv" if op["sfv"] else W + "/rel.sfv2/rel.rar",
            "-o", SRR, "-p", "-i", W]
    for f in op["store"]:
        argv += ["-s", f]
    text = ""
    if op["answer"].startswith("ask"):
        text = "x\n" + op["answer"][-1] + "\n"
    else:
        argv.append(op["answer"])
    return cli(sim, rsrr.main, argv, stdin_text=text)


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    srr0 = build_srr(scn["init"])
    fs.put(SRR, srr0)
    disk = {n: fdata(scn["init"]["seed"], n, s)
            for n, s in scn["files"].items()}
    for n, d in disk.items():
        fs.put(W + "/" + n, d)
    rs = relset(scn["init"])
    for n, d in rs.vols.items():
        fs.put(W + "/rel.sfv2/" + n, d)
    fs.put(W + "/rel.sfv2/rel.sfv", rs.sfv())
    base = fs.tree(W)
    app, model, rest, _ = F.parse_srr(srr0)
    cur = (app, model, rest)
    vs = []
    probes = {}
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            sim.op = i - 1
            if op["do"] == "create":
                if op["answer"] in ("-n", "ask-n"):
                    new = cur
                else:
                    st = [(f, disk[f]) for f in op["store"]]
                    if op["sfv"]:
                        st.append(("rel.sfv2/rel.sfv", rs.sfv()))
                    new = (rescene.APPNAME, st, b"".join(F.srr_of_rar(
                        "rel.sfv2/" + n, rs.vols[n]) for n in rs.names))
                raises = False
            else:
                m, raises = expected(cur[1], op, disk, after_rar(
                    fs.get(SRR)))
                new = (cur[0], m, cur[2])
            r = run_op(sim, op, rs)
            fired = [f for f in sim.fired if f[2] == i]
            where = "op %d %s %s (%s)%s" % (
                i, op["do"], op.get("answer", ""), r, " after " + ", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                if fired else "")
            crashed = fs.crashed
            sim.restart()
            data = fs.get(SRR)
            if data is None:
                vs.append(violation(
                    "srr-lost", "%s: no SRR file any more; directory: %s" % (
                        where, sorted(p for p in fs.tree(W)
                                      if p not in base))))
                break
            try:
                a, m2, rest2, _ = F.parse_srr(data)
            except ValueError as e:
                vs.append(violation("srr-corrupt", "%s: %s" % (where, e)))
                break
            got = (a, m2, rest2)
            allowed = [new] if not fired else [cur, new]
            if got not in allowed:
                vs.append(violation(
                    "neither-old-nor-new", "%s: stored %s, tail %d bytes; old "
                    "%s/%d new %s/%d" % (
                        where, [(n, len(d)) for n, d in m2], len(rest2),
                        [n for n, d in cur[1]], len(cur[2]),
                        [n for n, d in new[1]], len(new[2]))))
                break
            if not fired and failed(r) != raises:
                vs.append(violation("wrong-outcome", "%s\n%s%s" % (
                    where, r.tb, r.err[-300:])))
                break
            tree = fs.tree(W)
            lost = [p for p in base if p != SRR and tree.get(p) != base[p]]
            if lost:
                vs.append(violation("user-file-changed", "%s: %s" % (
                    where, lost)))
                break
            extra = [p for p in tree if p not in base]
            if extra and not crashed:
                vs.append(violation("litter", "%s: left %s" % (where, extra)))
                break
            for p in extra:
                fs.rm(p)   # the user removes the dead process's temp file
            cur = got
            if fired:
                k = "%s_%s" % (op["do"], "committed" if got == new else "old")
                probes[k] = probes.get(k, 0) + 1
    return result(sim, vs, nontrivial=bool(sim.fired), probes=probes)
