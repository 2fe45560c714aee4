"""C15: compressed archives are rebuilt exactly or reported as failing."""
import json
import os
import random

from sim import core, fixtures as F, proc, rarexe
from sim.common import STATE, W, cli, result, violation

import rescene
from rescene import main as rmain, srr as rsrr, rar as rrar, utility
from rescene import rarstream, osohash

STATE.add(rescene, rmain, rsrr, rrar, utility, rarstream, osohash)

BUDGET = {"quick": (330, 6, 110), "thorough": (8000, 20, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "SHORT", "KBINT",
         "ENOMEM", "EAGAIN", "DIES")
SITE_WEIGHTS = {"spawn": 4, "write": 2, "creat": 3, "open": 2, "unlink": 2,
                "rmdir": 2, "mkdir": 2}
RULE = ("A run is a release packed by a modelled rar (1-2 archives of 1-4 "
        "compressed, stored or empty files, solid or not, 1-9 volumes), its SRR, a folder of "
        "1-6 executables (matching, wrong, failing, crashing, writing "
        "garbage) and 1-2 reconstruction commands with 0-3 faults in system "
        "calls or in starting the executable; non-trivial when an executable "
        "ran or a fault fired.")
REAL = ["rescene.srr command line (reconstruct)", "rescene.main.reconstruct, "
        "CompressedRarFile, CompressedRarFileAll, RarRepository, "
        "RarArguments", "rescene.rar", "rescene.rarstream", "io.Buffered*"]
STUB = ["rar executables (model with version, thread, dictionary, solid and "
        "volume dependent streams)", "file system (in memory, fault "
        "injecting)", "clock", "stdin/stdout",
        "OS thread scheduling (simulated)"]
STATE_MEASURE = "distinct trees at the end of a run"
SRR, IN, OUT, RARS, TMP = (W + "/rel.srr", W + "/in", W + "/out",
                           W + "/rars", W + "/t")
VERS = [("2002-05-11", "300"), ("1998-03-02", "203"), ("2006-05-08", "360"),
        ("2008-09-16", "380"), ("2010-03-15", "393"), ("2012-06-09", "420"),
        ("2013-12-01", "501"), ("2016-02-04", "531"), ("2010-01-10", "392b1"),
        ("1999-01-20", "250"), ("2017-08-11", "550")]


def exename(e):
    return "%s_rar%s%s" % (VERS[e["v"]] + (e["ext"],))


def threads_of(e, scn):
    """thread counts the program may use with this executable"""
    if not e["mt"]:
        return [0]
    ver = int(VERS[e["v"]][1][:3])
    lo, hi = (1, 32) if ver >= 420 else (0, 16)
    mt = scn["mt"]
    top = hi
    if mt.get("min"):
        lo = mt["min"]
    if mt.get("max"):
        hi = mt["max"]
    if mt.get("set"):
        return [t for t in mt["set"] if lo <= t <= hi and t <= top]
    return [t for t in range(lo, hi + 1) if t <= top]


def plan(rng, tier):
    nex = rng.choice([1, 2, 2, 3, 4, 6])
    vs = rng.sample(range(len(VERS)), nex)
    exes = []
    for v in vs:
        ver = int(VERS[v][1][:3])
        exes.append({"v": v, "fam": rng.randrange(4),
                     "mt": ver >= 360 and rng.random() < .9,
                     "ext": rng.choice(["", ".exe"]),
                     "kind": "ok" if rng.random() < .8 else rng.choice(
                         ["fail", "crash", "none", "garbage", "partial",
                          "warn"])})
    mk = dict(rng.choice(exes))     # the one the release was made with
    if rng.random() < .2:           # ... which isn't there
        mk["fam"] = rng.randrange(4)
    ver = int(VERS[mk["v"]][1][:3])
    lo, hi = (1, 32) if ver >= 420 else (0, 16)
    T = rng.choice([lo, lo + 1, 2, 4, 8, hi, rng.randint(lo, hi)]) \
        if mk["mt"] else 0
    mt = {}
    if rng.random() < .25:
        k = rng.choice(["min", "max", "set", "set"])
        mt[k] = sorted(set([T] * (rng.random() < .8) + [
            rng.randint(1, 32) for _ in range(3)])) if k == "set" \
            else rng.randint(1, 20)
    scn = dict(plan_set(rng, [1, 1, 1, 2, 2, 3, 4]), **{
        "exes": exes, "mk": mk, "T": T, "mt": mt,
        "tmp": rng.random() < .3, "paths": rng.random() < .5,
        "ops": [{"do": "recon"}] * rng.choice([1, 1, 1, 2]),
        "faults": [],
        "knobs": {"bufsize": rng.choice([512, 8192, 65536]),
                  "dir_order": rng.choice(["sorted", "reverse",
                                           rng.randrange(1000)])}})
    if rng.random() < .2:       # another archive in the SRR
        scn["second"] = s = plan_set(rng, [1, 1, 2])
        s["mk"] = mk if rng.random() < .6 else dict(rng.choice(exes))
        T2 = T
        if s["mk"] != mk or rng.random() < .3:
            T2 = rng.choice([1, 2, 4, 16]) if s["mk"]["mt"] else 0
        s["T"] = T2
        if rng.random() < .4:   # with a file that is in the first one too
            s["shared"] = rng.choice(["first", "last"])
        if mt.get("set") and rng.random() < .6:
            mt["set"] = sorted(set(mt["set"] + [T2]))
    if mt.get("set") and rng.random() < .5:
        rng.shuffle(mt["set"])
    if rng.random() < .25:
        scn["carry"] = [mk["fam"]]
    return scn


def plan_set(rng, counts):
    nf = rng.choice(counts)
    big = rng.random() < .2
    files = []
    solid = nf > 1 and rng.random() < .4
    for i in range(nf):
        n = rng.randint(5000, 15000)
        if big and rng.random() < .6:
            n = rng.randint(70000, 400000)
        # (what rar does with data it can't compress in a solid archive is
        # not known well enough to model it)
        k = rng.choice(["comp"] * 6 + (["incomp", "store", "empty"]
                                       if not solid else ["empty"]))
        files.append({"n": 0 if k == "empty" else n, "kind": k,
                      "seed": rng.getrandbits(32),
                      "place": rng.choice(["plain", "plain", "plain", "hint",
                                           "renamed"])})
    total = sum(f["n"] for f in files)
    nv = rng.choice([1, 1, 2, 3, 5, 9])
    return {
        "files": files,
        "level": rng.choice([0x31, 0x33, 0x33, 0x35]),
        "dic": rng.choice(["A", "A", "A", "D", "G"]) if big
        else rng.choice("ABCDEFG"),
        "solid": solid,
        "volsize": None if nv == 1 else max(1000, total // (2 * nv)),
        "style": rng.choice(["old", "part"]), "sub": rng.random() < .15,
        "rr": rng.random() < .1, "comment": rng.random() < .1,
        "dirs": ["d"] if rng.random() < .1 else []}


def shrink(scn):
    if scn.get("second"):
        yield dict(scn, second=None)
        yield dict(scn["second"], **{k: scn[k] for k in (
            "exes", "mt", "tmp", "paths", "ops", "faults", "knobs")})
    for i in range(len(scn["exes"])):
        if len(scn["exes"]) > 1:
            yield dict(scn, exes=scn["exes"][:i] + scn["exes"][i + 1:])
    for i in range(len(scn["files"])):
        if len(scn["files"]) > 1:
            yield dict(scn, files=scn["files"][:i] + scn["files"][i + 1:])
        f = scn["files"][i]
        for k, v in (("place", "plain"), ("kind", "comp"), ("n", 5000)):
            if f[k] != v:
                fs = list(scn["files"])
                fs[i] = dict(f, **{k: v})
                yield dict(scn, files=fs)
    for k, v in (("mt", {}), ("carry", []), ("solid", False), ("volsize", None),
                 ("rr", False), ("comment", False), ("dirs", []),
                 ("tmp", False), ("sub", False), ("style", "old")):
        if scn.get(k, v) != v:
            yield dict(scn, **{k: v})


def build(scn):
    """-> (srr bytes, {vol: bytes}, {disk path: bytes}, hints, auto,
    [entries of each archive])"""
    disk, hints, auto = {}, {}, [False]
    sizes = set()

    def contents(s, name, first):
        files = []
        for i, f in enumerate(s["files"], first):
            rng = random.Random(f["seed"])
            n = f["n"]
            while n in sizes and n:      # auto locate goes by the size
                n += 1
            sizes.add(n)
            d = bytearray(F.rb(rng, n))
            if d:
                d[0] = d[0] & 0x7F | (0x80 if f["kind"] == "incomp" else 0)
            inner = ("sub\\" if s["sub"] else "") + name % i
            p = inner.replace("\\", "/")
            if f["place"] == "hint":
                p = "ren/" + (name % i).replace("m", "n")
                hints[inner] = p
            elif f["place"] == "renamed" and n:
                p = "some/z" + name % i
                auto[0] = True
            disk[IN + "/" + p] = bytes(d)
            files.append((inner, bytes(d), f["kind"]))
        return files

    out = F.srr_header("pyReScene Test")
    vols, entries = {}, []
    one = None
    for s in [scn] + ([scn["second"]] if scn.get("second") else []):
        files = contents(s, "q%d.bin" if one else "m%d.bin", 1 if one else 0)
        if one and s.get("shared"):
            if s["shared"] == "first":
                files.insert(0, one[0])
            else:
                files.append(one[0])
        mk = s["mk"]
        major = int(VERS[mk["v"]][1][0])
        vol = s["volsize"]
        ents = rarexe.entries([f[:2] for f in files], mk["fam"], s["level"],
                              "-md" + s["dic"], s["T"], s["solid"],
                              vol is not None,
                              mk["fam"] in scn.get("carry", ()))
        for i, f in enumerate(files):
            if f[2] == "store":
                n, d, _, _, fl = ents[i]
                ents[i] = (n, d, 0x30, d, fl)
        packed = rarexe.pack(
            ents, vol, "old" if major == 2 else s["style"], min(major, 4),
            s["dirs"], s["rr"], F.comment_block(random.Random(5))
            if s["comment"] else None, base="more" if one else "rel")
        for n, b in packed:
            out += F.srr_of_rar(n, b)
        vols.update(packed)
        entries.append((s, ents))
        one = files
    return out, vols, disk, hints, auto[0], entries


def must_work(scn, arch, ents):
    """does the program's documented search reach the original settings?"""
    mk = arch["mk"]
    comp = [e for e in ents if e[2] != 0x30]
    if not comp:
        return True
    if any(e["kind"] == "garbage" for e in scn["exes"]):
        return False
    if VERS[mk["v"]][1][0] == "2" and any(
            len(e[3]) > len(e[1]) for e in comp):
        return False
    if mk["fam"] in scn.get("carry", ()) and (
            scn.get("second") or [e[2] for e in ents if e[1]][0] == 0x30):
        return False    # the settings come from the first file of the archive
    for e in scn["exes"]:
        if e["kind"] in ("ok", "warn") and e["fam"] == mk["fam"] and \
                arch["T"] in threads_of(e, scn):
            return True
    return False


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    srr, vols, disk, hints, auto, ents = build(scn)
    disk[SRR] = srr
    for e in scn["exes"]:
        disk[RARS + "/" + exename(e)] = rarexe.exe(
            e["fam"], e["mt"], e["kind"], e["fam"] in scn.get("carry", ()))
    disk[RARS + "/readme.txt"] = b"not an executable"
    for p, b in disk.items():
        fs.put(p, b)
    fs.mkdirs(OUT)
    fs.mkdirs(TMP)
    fs.mkdirs(IN)
    proc.HANDLERS.clear()
    proc.HANDLERS[lambda n: "_rar" in n] = lambda a, p: rarexe.run(
        fs, a, p.dies)
    del rarexe.CALLS[:]
    argv = [SRR, "-i", IN, "-o", OUT, "-z", RARS, "-y"]
    if scn["paths"]:
        argv.append("-p")
    if scn["tmp"]:
        argv += ["-t", TMP]
    if auto:
        argv.append("-r")
    if hints:
        argv += ["-H", ";".join("%s:%s" % x for x in sorted(hints.items()))]
    mt = scn["mt"]
    if mt.get("set"):
        argv += ["--mt-set", ",".join(map(str, mt["set"]))]
    for k in ("min", "max"):
        if mt.get(k):
            argv += ["--mt-" + k, str(mt[k])]
    tv = {OUT + "/" + n: b for n, b in vols.items()}
    want = all(must_work(scn, a, e) for a, e in ents)
    vs = []
    probes = {}

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            sim.op = i - 1
            for p in fs.tree(OUT):
                fs.rm(p)
            r = cli(sim, rsrr.main, argv)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            where = "op %d (%s)%s" % (i, r, " after " + ", ".join(
                "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                if fired else "")
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            text = r.out + r.err
            ok = r.kind == "exit" and r.value in (None, 0)
            now = fs.tree(OUT)
            exact = all(now.get(p) == b for p, b in tv.items())
            told = "CRC mismatch" in text
            if ok and not told and not exact:
                vs.append(violation("volume-not-exact", "%s: success but %s\n"
                                    "%s" % (where, [
                                        (p, len(now[p]) if p in now else None,
                                         len(b)) for p, b in tv.items()
                                        if now.get(p) != b], text[-700:])))
                break
            if not hard and want and not (ok and exact and not told):
                vs.append(violation("not-rebuilt", "%s: an executable does "
                                    "reproduce it\n%s" % (
                                        where, text[-1200:])))
                break
            probe("rebuilt" if ok and exact and not told else "failed")
            if want:
                probe("possible")
            extra = [p for p in now if p not in tv]
            if extra:
                vs.append(violation("unrelated-files", "%s: %s" % (
                    where, extra)))
                break
            lost = [p for p in disk if fs.get(p) != disk[p]]
            if lost:
                vs.append(violation("input-changed", "%s: %s" % (
                    where, lost)))
                break
            gone = [d for d in sim.denied | sim.unlisted]
            rest = [p for p in fs.tree("/sim", True)
                    if p.startswith((TMP + "/", "/sim/tmp/"))
                    and p not in (TMP + "/", "/sim/tmp/") and not any(
                        p.startswith(g + "/") or p == g or g.startswith(p)
                        for g in gone)]
            if rest and not any(    # (interrupted while cleaning up)
                    f[0] == "KBINT" and f[1] == "unlink" for f in sim.fired):
                vs.append(violation("temporary-files-left", "%s: %s\n%s" % (
                    where, rest, text[-300:])))
                break
    if rarexe.CALLS:
        probes["runs_of_executables"] = len(rarexe.CALLS)
    return result(sim, vs, nontrivial=bool(rarexe.CALLS or sim.fired),
                  probes=probes)
