"""C18: merging SRR files keeps every stored file and every volume."""
import importlib
import os
import random

from sim import core, fixtures as F
from sim.common import STATE, W, cli, result, violation
from checks import c05
from checks.c05 import IN, OUT, build, plan_set

import rescene
from rescene import main as rmain
srr_merge = importlib.import_module("srr_merge")

BUDGET = {"quick": (420, 8, 110), "thorough": (9000, 24, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EBUSY", "EMFILE", "SHORT", "KBINT",
         "CRASH", "TORN")
SITE_WEIGHTS = {"write": 4, "creat": 3, "rename": 3, "read": 2}
RULE = ("A run merges 1-4 generated SRR files (library and bin/srr_merge), "
        "over an earlier result or not, with 0-3 faults or bad inputs, then "
        "rebuilds the release from the merged file.")
REAL = ["rescene.main.merge_srrs", "bin/srr_merge.py", "rescene.rar",
        "rescene.main.reconstruct", "io.Buffered*"]
STUB = c05.STUB
DST = W + "/merged.srr"


def plan(rng, tier):
    n = rng.choice([1, 2, 2, 2, 3, 4])
    ins = []
    for i in range(n):
        s = plan_set(rng, i, max(2, n), maxfiles=2, used=[
            k for x in ins if x["set"] for k in x["set"]["sizes"]])
        ins.append({"set": s if rng.random() < .9 else None,
                    "app": rng.choice(["", "pyReScene 0.7",
                                       "ReScene .NET 1.2"]),
                    "stored": [[rng.choice(["a.nfo", "b.sfv", "S/x.srs",
                                            "\xe9.txt", "same.nfo"]),
                                rng.choice([0, 1, 50, 9000, 30000])]
                               for _ in range(rng.randint(0, 3))],
                    "oso": rng.random() < .3})
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        ops.append({"do": "merge", "via": rng.choice(["lib", "tool",
                                                      "default"]),
                    "app": rng.choice([None, None, "My Merger"]),
                    "bad": rng.choice([None] * 7 + ["missing", "cut",
                                                    "tiny"]),
                    "badi": rng.randrange(n), "at": rng.random(),
                    "rebuild": rng.random() < .4})
    return {"ins": ins, "ops": ops, "faults": [],
            "old": rng.choice([None, None, "x"]),
            "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536])}}


def shrink(scn):
    if len(scn["ins"]) > 1:
        for i in range(len(scn["ins"])):
            yield dict(scn, ins=scn["ins"][:i] + scn["ins"][i + 1:],
                       ops=[dict(o, badi=0) for o in scn["ops"]])
    for i, x in enumerate(scn["ins"]):
        for k, v in (("set", None), ("stored", []), ("oso", False)):
            if x[k] != v:
                ii = list(scn["ins"])
                ii[i] = dict(x, **{k: v})
                yield dict(scn, ins=ii)


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    disk, paths = {}, []
    stored, tail, appname = [], b"", ""
    vols = {}
    for i, x in enumerate(scn["ins"]):
        b = F.srr_header(x["app"]) if x["app"] else \
            b"\x69\x69\x69\x00\x00\x07\x00"
        appname = appname or x["app"]
        t = b""
        for j, (n, k) in enumerate(x["stored"]):
            d = F.content(random.Random("%d.%d" % (i, j)), k)
            stored.append((n, d))
            b += F.srr_stored(n, d)
        if x["set"]:
            rs = build(x["set"], i)
            for n in rs.names:
                t += F.srr_of_rar(n, rs.vols[n], x["set"]["keeprr"])
                vols[n] = rs.vols[n]
            for n in rs.order:
                disk[IN + "/" + n.replace("\\", "/")] = rs.files[n]
            if x["oso"]:
                t += F.srr_oso("m.mkv", 99999 + i)
        tail += t
        b += t
        if len(b) < 20:
            d = b"padding the file size"
            stored.append(("pad", d))
            b += F.srr_stored("pad", d)
        p = "%s/i%d.srr" % (W, i)
        disk[p] = b
        paths.append(p)
    dst0 = F.srr_header("earlier result") + F.srr_stored("e.nfo", b"1" * 30)
    if scn["old"]:
        disk[DST] = dst0
        disk[paths[0][:-4] + "_joined.srr"] = dst0
    vs = []
    probes = {}

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            sim.op = i - 1
            for p in fs.tree(W):
                if p not in disk:
                    fs.rm(p)
            for p, b in disk.items():
                fs.put(p, b)
            bad = op["bad"]
            bp = paths[op["badi"]]
            inputs = dict(disk)
            if bad == "missing":
                fs.rm(bp)
                del inputs[bp]
            elif bad:
                b = disk[bp]
                if bad == "cut":
                    # inside a stored file or a header, not on a boundary
                    if not scn["ins"][op["badi"]]["stored"]:
                        b = b[:19]
                    else:
                        b = b[:len(b) - 1] if not scn["ins"][op["badi"]][
                            "set"] else b[:15]
                else:
                    b = b[:12]
                fs.put(bp, b)
                inputs[bp] = b
            out = DST
            if op["via"] == "default":
                out = paths[0][:-4] + "_joined.srr"
            before = fs.get(out)
            want_app = op["app"] if op["via"] == "lib" and op["app"] \
                else appname

            def body():
                if op["via"] == "lib":
                    return rmain.merge_srrs(iter(paths), DST, op["app"])
                o = type("O", (), {"output_name": DST if op["via"] == "tool"
                                   else None})
                return srr_merge.main(o, list(paths))
            r = sim.call(body)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            crashed = fs.crashed
            where = "op %d %s %s (%s)%s" % (
                i, op["via"], bad or "", r, " after " + ", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                if fired else "")
            if crashed:
                sim.restart()
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            ok = r.kind == "ok"
            now = fs.get(out)
            if not hard and ok == bool(bad):
                vs.append(violation("wrong-outcome", "%s\n%s" % (where,
                                                                 r.tb)))
                break
            full = False
            if now is not None and now != before:
                try:
                    full = F.parse_srr(now)[:3] == (want_app, stored, tail)
                except ValueError as e:
                    where += " (%s)" % e
            if ok and not (full or (now == before and now is not None and
                                    F.parse_srr(now)[:3] == (
                                        want_app, stored, tail))):
                vs.append(violation("merge-incomplete", where))
                break
            killed = any(f[0] in ("CRASH", "TORN", "KBINT") for f in hard)
            if not ok and now != before and not (killed and full):
                vs.append(violation(
                    "failure-changed-output", "%s: was %s now %s" % (
                        where, before and len(before),
                        now is not None and len(now))))
                break
            want = dict(inputs)
            if now is not None:
                want[out] = now
            noise = sim.denied
            tree = fs.tree(W)
            extra = [p for p in tree if p not in want and p not in noise]
            lost = [p for p in want if tree.get(p) != want[p]]
            if extra and not crashed:
                vs.append(violation("litter", "%s: left %s" % (where, extra)))
                break
            if lost:
                vs.append(violation("input-changed", "%s: %s" % (where,
                                                                 lost)))
                break
            probe("merged" if ok else "crashed" if crashed else "failed")
            if ok and op["rebuild"]:
                keep, sim.faults = sim.faults, []
                n0 = sim.op
                r = sim.call(rmain.reconstruct, out, IN, OUT, False)
                sim.op = n0
                sim.faults = keep
                badv = [n for n, b in vols.items()
                        if fs.get(OUT + "/" + n) != b]
                if r.kind != "ok" or badv:
                    vs.append(violation("merged-srr-rebuilds-wrong",
                                        "%s: %s %s\n%s" % (where, r, badv,
                                                           r.tb)))
                    break
                probe("rebuilt")
    return result(sim, vs, probes=probes)
