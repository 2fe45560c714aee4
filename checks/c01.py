"""C01: stored-file edit histories refine a list model under I/O faults."""
import os
import random

from sim import core, fixtures as F
from sim.common import (STATE, W, cli, result, violation)

import rescene
from rescene import main as rmain, srr as rsrr, rar as rrar, utility

STATE.add(rescene, rmain, rsrr, rrar, utility)

BUDGET = {"quick": (260, 12, 120), "thorough": (6000, 25, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EBUSY", "EMFILE", "SHORT")
RULE = ("A run is one generated SRR file plus a history of 1-6 add/remove/"
        "rename operations (library and command line) with 0-3 injected I/O "
        "faults; it is non-trivial when at least one operation changed the "
        "file or a fault fired inside one. Distinct = distinct event log.")
REAL = ["rescene.main add/remove/rename_stored_file", "rescene.rar",
        "rescene.srr command line (edit)", "io.Buffered*"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdin/stdout",
        "OS thread scheduling (simulated)"]
SRR = W + "/rel.srr"

NAMES = ["rel.nfo", "rel.sfv", "Sample/rel-sample.srs", "Proof/rel.jpg",
         "b c.txt", "\xfcn\xef.nfo", "[x].nfo", "Subs/rel.sfv", "cd1/a.m3u",
         "zero.bin", "big.log", "x.nfo", "Cover/x.nfo", "~t.tmp", "-d.nfo",
         "REL.NFO", "cover/X.nfo"]
BAD = ["a:b.nfo", "what?.nfo", "q*.nfo"]


def fdata(seed, name, size):
    return F.content(random.Random("%s|%s" % (seed, name)), size)


def build_srr(init):
    rng = random.Random(init["seed"])
    out = F.srr_header(init["app"])
    tail = b""
    for i, (name, size) in enumerate(init["stored"]):
        b = F.srr_stored(name, fdata(init["seed"], "s" + name, size))
        if init["vols"] and i >= len(init["stored"]) - init.get("tail", 0):
            tail += b
        else:
            out += b
    if init["vols"]:
        rs = F.rarset(rng, files=[("movie.mkv", F.rb(rng, 100 * init["vols"]))],
                      volsize=100 if init["vols"] > 1 else None,
                      style=init["style"], rr=init["rr"],
                      comment=init.get("comment", False),
                      padding=init.get("padding", 0))
        for n in rs.names:
            out += F.srr_of_rar(n, rs.vols[n], init.get("keeprr", False))
        if init.get("oso"):
            out += F.srr_oso("movie.mkv", 1234567)
    return out + tail


def after_rar(data):
    """how many stored files come after RAR meta data"""
    try:
        kinds = [t for t, h, d in F.parse_srr(data)[3] if t in (0x6A, 0x71)]
    except (ValueError, TypeError):     # reported later on
        return 0
    return len(kinds) - kinds.index(0x71) - kinds.count(0x71) \
        if 0x71 in kinds else 0


def plan(rng, tier):
    nst = rng.randint(0, 4)
    names = rng.sample(NAMES, nst)
    size = lambda: rng.choice([0, 1, 17, 300, 5000, 9000, 20000])
    init = {"seed": rng.getrandbits(32), "app": rng.choice(["pyReScene 0.7", "ReScene .NET 1.2", "x" * 80]),
            "stored": [[n, size()] for n in names],
            "vols": rng.choice([0, 1, 1, 2, 3, 5]),
            "tail": rng.choice([0, 0, 0, 1, 2]),
            "style": rng.choice(["old", "part", "part2"]),
            "rr": rng.choice([None, None, "new", "old"]),
            "keeprr": rng.random() < .15, "comment": rng.random() < .2,
            "padding": rng.choice([0, 0, 0, 9]), "oso": rng.random() < .3}
    files = {n: size() for n in NAMES if rng.random() < .8}
    cur = list(names)
    ops = []
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(["add", "add", "add", "remove", "rename"])
        if k == "add":
            paths = rng.random() < .6
            pick = rng.sample(NAMES, rng.randint(1, 3))
            if cur and rng.random() < .15:
                pick.insert(rng.randrange(2), rng.choice(cur))
            op = {"do": "add", "files": pick, "paths": paths,
                  "abs": rng.random() < .15,
                  "via": rng.choice(["lib", "lib", "cli"])}
            if op["via"] == "cli" and any(p.startswith("-") for p in pick):
                op["via"] = "lib"
            if rng.random() < .06:
                op["files"] = op["files"] + ["missing.nfo"]
            if rng.random() < .15:
                # another program still writes one of the files
                op["grow"] = [rng.choice(pick), rng.randint(1, 4),
                              rng.choice([1, 700, 9000, 66000, -1, -5000])]
            ops.append(op)
            cur += pick if paths else [os.path.basename(p) for p in pick]
        elif k == "remove":
            pool = cur if cur and rng.random() < .85 else NAMES
            ops.append({"do": "remove", "files": rng.sample(
                sorted(set(pool)), min(len(set(pool)), rng.randint(1, 2)))})
        else:
            pool = cur if cur and rng.random() < .85 else NAMES
            new = rng.choice(["new.nfo", "Sample/renamed \xe9.srs", "a/b/c.d",
                              "x" * 200 + ".nfo"] + BAD[:1]
                             if rng.random() < .8 else NAMES)
            old = rng.choice(pool)
            if rng.random() < .35:  # close to the old name
                i = rng.randrange(len(old))
                new = rng.choice([old[:i] + "_" + old[i + 1:], old.upper(),
                                  old[::-1], old[:-1] + "t", old + "t", old,
                                  "z/" + old, old[i:] or "q"]).strip("/")
            ops.append({"do": "rename", "old": old, "new": new})
            cur.append(new)
    return {"init": init, "files": files, "ops": ops, "faults": [],
            "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536]),
                      "dir_order": rng.choice(["sorted", "reverse",
                                               rng.randrange(1000)])}}


def bad_name(n):
    return any(c in n for c in ':*?"<>|\r\n')


def expected(model, op, disk, tail=0):
    """-> (new model, raises?)"""
    if op["do"] == "add":
        have = [os.path.normpath(n) for n, _ in model]
        if not op.get("abs") and any(f in have for f in op["files"]):
            return model, True
        new = []
        for f in op["files"]:
            if f in disk:
                n = f if op["paths"] else os.path.basename(f)
                if n in have:
                    return model, True
                have.append(n)
                new.append((n, disk[f]))
        k = len(model) - tail    # in front of the RAR data
        return model[:k] + new + model[k:], False
    if op["do"] == "remove":
        return [(n, d) for n, d in model if n not in op["files"]], False
    for i, (n, d) in enumerate(model):
        if n == op["old"]:
            if bad_name(op["new"]):
                return model, True
            return model[:i] + [(op["new"], d)] + model[i + 1:], False
    return model, True


def apply_op(sim, op):
    if op["do"] == "add":
        files = [(W + "/" if op.get("abs") else "") + f for f in op["files"]]
        if op["via"] == "cli":
            argv = [SRR]
            for f in files:
                argv += ["-s", f]
            if op["paths"]:
                argv.append("-p")
            argv += ["-i", W]
            return cli(sim, rsrr.main, argv)
        return sim.call(rmain.add_stored_files, SRR, files, W, op["paths"])
    if op["do"] == "remove":
        return sim.call(rmain.remove_stored_files, SRR, list(op["files"]))
    return sim.call(rmain.rename_stored_file, SRR, op["old"], op["new"])


def failed(r):
    if r.kind == "exit":
        return r.value not in (None, 0)
    return r.kind != "ok"


def submodels(model, op, disk, tail):
    """add with some of the requested files skipped"""
    names = [f for f in op["files"] if f in disk]
    k = len(model) - tail
    for m in range(1 << len(names)):
        yield model[:k] + [(f if op["paths"] else os.path.basename(f),
                            disk[f])
                           for i, f in enumerate(names)
                           if m >> i & 1] + model[k:]


def watch(sim, op, disk):
    """change a file at the nth access to it -> {path: (before, after)}"""
    name, nth, n = op["grow"]
    before = disk.get(name)
    seen, done = [0], {}

    def hook(site, p, extra):
        if p != W + "/" + name or before is None:
            return
        seen[0] += 1
        if seen[0] == nth:
            after = before + b"g" * n if n > 0 else before[:n]
            sim.fs.lookup(p).data[:] = after
            done[name] = (before, after)
            disk[name] = after
            sim.fired.append(("SHORT", "grow", sim.op, 0, p))
            sim.record("other process changes %s" % p)
    sim.on_sys = hook
    return done


def settle(m2, model, done):
    """entries of a file that changed meanwhile, as the file is now"""
    out = []
    for n, d in m2:
        for f, (a, b) in done.items():
            lo, hi = sorted((a, b), key=len)
            if n in (f, os.path.basename(f)) and (n, d) not in model and \
                    d.startswith(lo) and hi.startswith(d):
                d = b
        out.append((n, d))
    return out


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    srr0 = build_srr(scn["init"])
    fs.put(SRR, srr0)
    disk = {n: fdata(scn["init"]["seed"], n, s)
            for n, s in scn["files"].items()}
    for n, d in disk.items():
        fs.put(W + "/" + n, d)
    app, model, rest, _ = F.parse_srr(srr0)
    vs = []
    probes = {}

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    changed = False
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            sim.op = i - 1
            done = watch(sim, op, disk) if op.get("grow") else {}
            r = apply_op(sim, op)
            sim.on_sys = None
            if done:
                probe("file_changed_meanwhile")
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            tail = after_rar(fs.get(SRR))
            new, raises = expected(model, op, disk, tail)
            where = "op %d %s (%s)%s" % (
                i, op["do"], r, " after " + ", ".join(
                    "%s@%s" % (f[0], f[1]) for f in fired) if fired else "")
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            if not hard:
                if failed(r) != raises:
                    vs.append(violation(
                        "wrong-outcome", "%s: expected %s\n%s%s" % (
                            where, "failure" if raises else "success",
                            r.tb, r.err[-300:])))
                allowed = [new]
            elif failed(r):
                allowed = [model, new]
                probe("failed_with_fault")
            else:
                allowed = [new]
                probe("ok_despite_fault")
                if op["do"] == "add" and any(
                        f[1] in ("listdir", "stat") for f in hard):
                    # a file that isn't seen isn't stored (a message)
                    allowed = [m for m in submodels(model, op, disk, tail)
                               if len(set(n for n, _ in m)) == len(m)
                               or not raises]
                elif raises:
                    vs.append(violation("wrong-outcome", where + ": must fail"))
            data = fs.get(SRR)
            if data is None:
                vs.append(violation(
                    "srr-lost", "%s: the SRR file is gone; left: %s" % (
                        where, sorted(fs.tree(W)))))
                break
            try:
                a2, m2, rest2, _ = F.parse_srr(data)
            except ValueError as e:
                vs.append(violation("srr-corrupt", "%s: %s" % (where, e)))
                break
            if a2 != app or rest2 != rest:
                vs.append(violation("srr-rar-data-changed", where))
                break
            if settle(m2, model, done) not in allowed:
                vs.append(violation(
                    "stored-files-differ", "%s: have %s, allowed %s" % (
                        where, [(n, len(d)) for n, d in m2],
                        [[(n, len(d)) for n, d in m] for m in allowed])))
                break
            if m2 != model:
                changed = True
                probe("changed_" + op["do"])
            model = m2
            # nothing else on disk may have changed
            tree = fs.tree(W)
            want = {SRR: data}
            want.update({W + "/" + n: d for n, d in disk.items()})
            noise = sim.denied
            extra = [p for p in tree if p not in want and p not in noise]
            if extra:
                vs.append(violation("litter", "%s: left %s" % (where, extra)))
                break
            lost = [p for p in want if tree.get(p) != want[p]]
            if lost:
                vs.append(violation("user-file-changed", "%s: %s" % (
                    where, lost)))
                break
            for p in noise:
                if p != SRR and fs.exists(p) and p not in want:
                    fs.rm(p)
        # the program itself can read the result
        if not vs:
            sim.faults = []
            r = sim.call(rmain.info, SRR)
            if r.kind != "ok":
                vs.append(violation("result-unreadable", r.tb))
            else:
                got = [(f.file_name, f.file_size)
                       for f in r.value["stored_files"].values()]
                seen = {}
                for n, d in model:
                    seen[n] = len(d)
                if dict(got) != seen:
                    vs.append(violation("info-differs", "%r / %r" % (
                        got, list(seen.items()))))
    return result(sim, vs, nontrivial=changed or bool(sim.fired),
                  probes=probes)
