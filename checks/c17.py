"""C17: damaged SRR, SRS, RAR and media input ends in an error, not in a
hang, and leaves everything else alone."""
import os
import random
import resource
import struct
import sys
import zlib

from sim import core, fixtures as F, media
from sim.common import STATE, W, REPO, cli, result, violation
from checks import c05
from checks.c05 import build, build_srr
from checks.c07 import make_srs
from checks.c04 import put_main

sys.path.append(os.path.join(REPO, "bin"))
import retag
import srr_merge
import rescene
import resample
from rescene import main as rmain, srr as rsrr, rar as rrar, utility
from rescene import rarstream, osohash
from resample import main as smain, srs, fpcalc
from resample import ebml, riff, mov, asf, flac, mp3

STATE.add(rescene, resample, rmain, rsrr, rrar, utility, rarstream, osohash,
          smain, srs, fpcalc, ebml, riff, mov, asf, flac, mp3, retag)

BUDGET = {"quick": (1000, 2, 110), "thorough": (30000, 5, 2400)}
KINDS = ("EIO", "EACCES", "EMFILE", "SHORT", "ENOSPC", "KBINT")
SITE_WEIGHTS = {"read": 4, "open": 2, "write": 2}
RULE = ("A run builds a valid SRR, RAR set, SRS or media file and then runs "
        "2-8 commands on it, each on a freshly damaged copy (1-3 flips, "
        "cuts, insertions, deletions or integer field overwrites with edge "
        "values at any offset, biased to block headers), with 0-3 I/O "
        "faults; work (simulated system calls, CPU time, memory) is bounded, "
        "the tree is compared after each command; non-trivial when a "
        "damaged file was read.")
REAL = ["rescene.srr, resample.srs, bin/retag.py, bin/srr_merge.py command "
        "lines", "rescene.main", "rescene.rar", "resample.* container "
        "readers", "io.Buffered*"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdin/stdout",
        "OS thread scheduling (simulated)", "fpcalc program (stub process)"]
IN, OUT = W + "/in", W + "/out"
MEMORY = 400 << 10      # KiB of growth a command on a tiny file may cause
SRRCMDS = ["list", "details", "verify", "extract", "regex", "recon", "store",
           "remove", "rename", "merge", "retag", "info"]
RARCMDS = ["create", "createsfv", "rarsample", "rarmain"]
MEDIACMDS = ["mksrs", "mksrs", "sinfo", "check"]
SRSCMDS = ["srsinfo", "rebuild", "rebuild", "rebuildmain"]


def plan_damage(rng):
    res = []
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
        k = rng.choice(["int", "int", "int", "len", "len", "len", "flip", "byte", "trunc",
                        "insert", "delete", "zero", "dup"])
        res.append({"kind": k, "at": rng.random(),
                    "near": rng.choice([None, None, 0, 3, 5, 7, 9, 11, 4, 8,
                                        12, 16, 20, 26, 32]),
                    "size": rng.choice([1, 2, 2, 4, 4, 8]),
                    "big": rng.random() < .4,
                    "value": rng.choice(["0", "1", "6", "7", "8", "max",
                                         "half", "half-", "len", "rest",
                                         "rest+", "65536", "fffe", "-8",
                                         "rnd"]),
                    "x": rng.getrandbits(32)})
    return res


def plan(rng, tier):
    target = rng.choice(["srr", "srr", "srr", "rar", "media", "media",
                         "srs", "srs"])
    scn = {"target": target, "faults": [],
           "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536]),
                     "max_steps": 200000}}
    if target in ("srr", "rar"):
        scn["set"] = c05.plan_set(rng, 0, 1)
        scn["set"]["sizes"] = [min(n, 400) for n in scn["set"]["sizes"]][:3]
        scn["set"]["dir"] = ""
        scn["set"]["names"] = "diff"
        if rng.random() < .3:
            scn["set"]["sizes"] = []
        cmds = SRRCMDS if target == "srr" else RARCMDS
        scn["oso"] = rng.random() < .3
        scn["stored"] = {n: rng.choice([0, 1, 60, 300])
                         for n in c05.STORED if rng.random() < .5}
    else:
        spec = media.plan(rng, tier=tier)
        spec["vmax"] = min(spec["vmax"], rng.choice([40, 300]))
        spec["n"] = min(spec["n"], 8)
        spec["a"] = min(spec["a"], spec["n"] - 1)
        spec["b"] = min(max(spec["b"], spec["a"] + 1), spec["n"])
        if "size" in spec:
            spec["size"] = min(spec["size"], 3000)
        if spec["kind"] == "stream":
            spec["main"] = min(spec["main"], 5000)
            spec["off"] = min(spec["off"], spec["main"] - spec["size"])
        scn["media"] = spec
        cmds = MEDIACMDS if target == "media" else SRSCMDS
    scn["ops"] = [{"do": rng.choice(cmds), "damage": plan_damage(rng),
                   "which": rng.randrange(100)}
                  for _ in range(rng.choice([2, 4, 8]))]
    return scn


def shrink(scn):
    for i, o in enumerate(scn["ops"]):
        for j in range(len(o["damage"])):
            if len(o["damage"]) > 1:
                l = list(scn["ops"])
                l[i] = dict(o, damage=o["damage"][:j] + o["damage"][j + 1:])
                yield dict(scn, ops=l)
        if o["which"]:
            l = list(scn["ops"])
            l[i] = dict(o, which=0)
            yield dict(scn, ops=l)
    if "set" in scn:
        for s in c05.shrink({"sets": [scn["set"]], "stored": {}, "place": {},
                             "ops": []}):
            yield dict(scn, set=s["sets"][0])
        for n in scn["stored"]:
            yield dict(scn, stored={k: v for k, v in scn["stored"].items()
                                    if k != n})
        if scn["oso"]:
            yield dict(scn, oso=False)
    else:
        for s in media.shrink(scn["media"]):
            yield dict(scn, media=s)


def marks(data):
    """offsets where blocks start"""
    res = [0]
    if data[:3] in (b"ii\x69", b"Rar"):
        pos = 0
        while pos + 7 <= len(data) and len(res) < 500:
            res.append(pos)
            crc, t, fl, sz = struct.unpack_from("<HBHH", data, pos)
            if sz < 7:
                break
            add = 0
            if (t == 0x74 and data[:3] == b"Rar") or t in (0x6A, 0x6C) or (
                    fl & 0x8000 and t != 0x74):
                if pos + 11 > len(data):
                    break
                add = struct.unpack_from("<I", data, pos + 7)[0]
            if t == 0x74 and data[:3] != b"Rar":
                add = 0
            pos += sz + add
        return res
    for tok in (b"RIFF", b"LIST", b"strl", b"strh", b"strf", b"movi", b"idx1",
                b"moov", b"trak", b"stsz", b"stco", b"co64", b"stsc", b"mdat",
                b"ftyp", b"00dc", b"01wb", b"SRSF", b"SRST", b"SRSP", b"fLaC",
                b"ID3", b"TAG", b"APETAGEX", b"LYRICS", b"\x1a\x45\xdf\xa3",
                b"\x18\x53\x80\x67", b"\x1f\x43\xb6\x75", b"\xa3", b"\xa1",
                b"\x16\x54\xae\x6b", b"\x1f\x69\x75\x75", b"\x6a\x75",
                b"\x30\x26\xb2\x75", b"\x36\x26\xb2\x75", b"\xa1\xdc\xab\x8c",
                b"\x91\x07\xdc\xb7", b"\x82\0\0", b"STRM"):
        k = data.find(tok)
        n = 0
        while k >= 0 and n < 12:
            res.append(k)
            n += 1
            k = data.find(tok, k + 1)
    return sorted(set(res))


def lengths(data):
    """[(offset, bytes, byte order)] of the fields that say how long a block
    or element is, by the kind of file"""
    res = []
    for at in marks(data):
        if data[:3] in (b"ii\x69", b"Rar"):
            res += [(at + 5, 2, "little"), (at + 7, 4, "little")]
        elif data[:4] == b"RIFF":
            res.append((at + 4, 4, "little"))
        elif data[4:8] == b"ftyp":
            wide = data[at - 4:at] == b"\0\0\0\1"
            res.append((at + 4, 8, "big") if wide else (at - 4, 4, "big"))
        elif data[:4] == b"\x30\x26\xb2\x75":
            res.append((at + 16, 8, "little"))
        elif data[:4] == b"fLaC":
            res += [(at + 1, 3, "big"), (at + 5, 3, "big")]
        elif data[:4] == b"\x1a\x45\xdf\xa3":
            res += [(at + k, w, "big") for k, w in (
                (1, 1), (1, 2), (2, 1), (4, 1), (4, 8), (4, 4), (4, 2))]
        else:
            res += [(at + 4, 4, "little"), (at + 6, 4, "big")]
    return [(at, w, o) for at, w, o in res if 0 <= at and at + w <= len(data)]


def harm(data, dmgs):
    for d in dmgs:
        n = len(data)
        if not n:
            return data
        if d["near"] is None:
            at = int(d["at"] * n)
        else:
            m = marks(data)
            at = min(n - 1, m[int(d["at"] * len(m))] + d["near"])
        k = d["kind"]
        c = 1 + d["x"] % 40
        if k == "flip":
            data = data[:at] + bytes([data[at] ^ (1 << d["x"] % 8)]) \
                + data[at + 1:]
        elif k == "byte":
            data = data[:at] + bytes([d["x"] % 256]) + data[at + 1:]
        elif k == "trunc":
            data = data[:at]
        elif k == "insert":
            data = data[:at] + F.rb(random.Random(d["x"]), c) + data[at:]
        elif k == "delete":
            data = data[:at] + data[at + c:]
        elif k == "zero":
            data = data[:at] + b"\0" * len(data[at:at + c]) + data[at + c:]
        elif k == "dup":
            data = data[:at] + data[at:at + c] + data[at:]
        else:
            s, order = d["size"], "big" if d["big"] else "little"
            if k == "len":
                fields = lengths(data)
                if fields:
                    at, s, order = fields[int(d["at"] * len(fields))]
            top = (1 << 8 * s) - 1
            v = {"0": 0, "1": 1, "6": 6, "7": 7, "8": 8, "max": top,
                 "half": top // 2 + 1, "half-": top // 2, "len": n,
                 "rest": n - at, "rest+": n - at + 1, "65536": 65536,
                 "fffe": top - 1, "-8": top - 7, "rnd": d["x"]}[d["value"]]
            b = (v & top).to_bytes(s, order)
            data = data[:at] + b[:n - at] + data[at + s:]
    return data


def sound(data):
    """is the SRR's block structure complete; "" or what is wrong (blocks of
    unknown types are skipped like the format description says)"""
    pos, removed = 0, 1
    while pos < len(data):
        if pos + 7 > len(data):
            return "ends in the block header at %d" % pos
        crc, t, fl, sz = struct.unpack_from("<HBHH", data, pos)
        if sz < 7 or pos + sz > len(data):
            return "block of %d bytes at %d" % (sz, pos)
        if pos == 0 and t != 0x69:
            return ""       # read as something else
        if t == 0x71:
            removed = fl & 1
        add = 0
        rr = t == 0x78 or (t == 0x7A and sz > 34 and data[
            pos + 26:pos + 28] == b"\2\0" and data[
                pos + 32:pos + 34] == b"RR")
        if t == 0x74 or (rr and removed):
            pass
        elif sz >= 11 and (fl & 0x8000 or t == 0x7A):
            add = struct.unpack_from("<I", data, pos + 7)[0]
        if pos + sz + add > len(data):
            return "data of the block at %d is missing" % pos
        pos += sz + add
    return ""


class Op(object):
    """what a command is run on and what it may write"""


def base_files(sim, scn):
    """-> dict of pristine inputs"""
    o = Op()
    o.m = None
    if "set" in scn:
        s = scn["set"]
        o.rs = build(s) if s["sizes"] or s["dirs"] else None
        sets = [(s, o.rs)] if o.rs else []
        o.srr, o.vols, o.stored = build_srr(
            {"stored": scn["stored"], "oso": scn["oso"]}, sets)
        if not o.rs:
            o.rs = build(dict(s, sizes=[30]))
            o.vols = {}
    else:
        o.m = media.build(scn["media"])
        o.srs = make_srs(sim, o.m, {"check": False, "big": False,
                                    "cut": False, "main": None})
    return o


def command(o, op, disk):
    """-> (fn, argv, path of the damaged file, allowed(path) new/changed)"""
    do = op["do"]
    never = lambda p: False
    out = lambda p: p.startswith(OUT + "/")
    if do in SRRCMDS:
        path = W + "/rel.srr"
        disk[path] = o.srr
        for n, b in o.rs.files.items():
            disk[IN + "/" + n.replace("\\", "/")] = b
        disk[IN + "/x.txt"] = b"to store"
        only = lambda p: p == path
        return {
            "list": (rsrr.main, [path, "-l"], path, never),
            "details": (rsrr.main, [path, "-e"], path, never),
            "verify": (rsrr.main, [path, "-q", "-i", IN], path, never),
            "extract": (rsrr.main, [path, "-x", "-p", "-y", "-o", OUT], path,
                        out),
            "regex": (rsrr.main, [path, "--extract-regex", ".*nfo", "-p",
                                  "-y", "-o", OUT], path, out),
            "recon": (rsrr.main, [path, "-p", "-y", "-i", IN, "-o", OUT],
                      path, out),
            "store": (rsrr.main, [path, "-s", IN + "/x.txt"], path, only),
            "remove": (lambda: rmain.remove_stored_files(path, ["rel.nfo"]),
                       [], path, only),
            "rename": (lambda: rmain.rename_stored_file(
                path, "rel.nfo", "new.nfo"), [], path, only),
            "info": (lambda: rmain.info(path), [], path, never),
            "merge": (lambda: rmain.merge_srrs(
                [W + "/good.srr", path], OUT + "/m.srr", "x"), [], path, out),
            "retag": (retag.main, [path, "-y", "-i", IN, "-o", OUT], path,
                      out),
        }[do]
    if do in RARCMDS:
        rs = o.rs
        for n, b in rs.vols.items():
            disk[IN + "/" + n] = b
        disk[IN + "/rel.sfv"] = rs.sfv()
        path = IN + "/" + rs.names[op["which"] % len(rs.names)]
        first = IN + "/" + rs.names[0]
        if do == "create":
            return rsrr.main, [first, "-o", OUT + "/n.srr", "-y"], path, out
        if do == "createsfv":
            return rsrr.main, [IN + "/rel.sfv", "-o", OUT + "/n.srr",
                               "-y"], path, out
        if do == "rarsample":       # a stored .vob/.mkv in RARs as a sample
            return srs.main, [first, "-o", OUT, "-y"], path, out
        disk[W + "/x.srs"] = SRS_STUB
        return srs.main, [W + "/x.srs", first, "-o", OUT, "-y"], path, out
    m = o.m
    samp, mainf, srsf = (W + "/s/" + m.name, W + "/main/m" + m.main_ext,
                         W + "/x.srs")
    if do in MEDIACMDS:
        disk[samp] = m.sample
        disk[mainf] = m.main
        if do == "mksrs":
            return srs.main, [samp, "-o", OUT, "-y"], samp, out
        if do == "sinfo":
            return srs.main, [samp, "-i"], samp, never
        return srs.main, [samp, "-c", mainf, "-o", OUT, "-y"], \
            samp if op["which"] % 2 else mainf, out
    disk[srsf] = o.srs
    if do == "srsinfo":
        return srs.main, [srsf, "-l"], srsf, never
    disk[mainf] = m.main
    return srs.main, [srsf, mainf, "-o", OUT, "-y"], \
        mainf if do == "rebuildmain" else srsf, out


SRS_STUB = None


def rss():
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss


def run(scn):
    global SRS_STUB
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    vs, probes = [], {}

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    with core.running(sim):
        o = base_files(sim, scn)
        if SRS_STUB is None and scn["target"] == "rar":
            sim.op = -2
            SRS_STUB = make_srs(sim, media.build(media.plan(
                random.Random(3), "avi")), {"check": False, "big": False,
                                            "cut": False, "main": None})
        for i, op in enumerate(scn["ops"]):
            for p in fs.tree():
                fs.rm(p)
            disk = {IN + "/keep": b"keep", OUT + "/keep": b"keep too",
                    "/sim/keep": b"and me", W + "/good.srr":
                    F.srr_header() + F.srr_stored("g.nfo", b"good")}
            fn, argv, path, allowed = command(o, op, disk)
            pristine = disk[path]
            disk[path] = harm(pristine, op["damage"])
            harmed = disk[path] != pristine
            for p, b in disk.items():
                fs.put(p, b)
            media.install_fpcalc(fs, "ok")
            disk.update({p: fs.get(p) for p in fs.tree("/sim/bin")})
            size = sum(len(b) for b in disk.values())
            sim.op = i - 1
            steps0, rss0 = fs.steps, rss()
            r = cli(sim, fn, argv, stdin_text="y\n" * 40,
                    sched=fn is rsrr.main)
            steps, grown = fs.steps - steps0, rss() - rss0
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            where = "op %d %s (%s)%s" % (i, " ".join(argv) or op["do"], r,
                                         " after " + ", ".join(
                "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                if fired else "")
            tail = "\n" + r.out[-300:] + r.err[-300:] + r.tb[-900:]
            good = r.kind == "ok" and not r.value or (
                r.kind == "exit" and not r.value)
            if op["do"] in ("info", "remove", "rename", "merge"):
                good = r.kind == "ok"
            probe("%s %s" % (op["do"], "ok" if good else "failed"))
            # 1. bounded work
            if r.kind == "steps" or steps > 8000 + 30 * size:
                vs.append(violation("no-termination", "%s: %d calls for %d "
                                    "bytes" % (where, steps, size)))
                break
            if grown > MEMORY:
                vs.append(violation("memory", "%s: %d MiB for %d bytes" % (
                    where, grown >> 10, size)))
                break
            # 2. only the requested results
            tree = fs.tree()
            bad = [p for p in set(tree) | set(disk)
                   if tree.get(p) != disk.get(p) and not (
                       allowed(p) and p not in (OUT + "/keep",))
                   and p not in sim.denied and not any(
                       p.startswith(d + "/") for d in sim.unlisted)]
            if bad:
                vs.append(violation("other-files-changed", "%s: %s%s" % (
                    where, bad, tail)))
                break
            if r.kind in ("kbint", "crash"):
                continue
            bad = judge(sim, o, op, disk, tree, path, good, harmed, hard, r)
            if bad:
                vs.append(violation(bad[0], "%s: %s%s" % (bad[1], where,
                                                          tail)))
                break
    return result(sim, vs, nontrivial=True, probes=probes)


def judge(sim, o, op, disk, tree, path, good, harmed, hard, r):
    """outcome against what the damaged input really holds"""
    do = op["do"]
    data = disk[path]
    if do in SRRCMDS:
        if good and sound(data):
            return "damage-accepted", sound(data)
    if not harmed and not good and not hard and not (
            do.startswith("rar") or do == "retag" or "type not recognized"
            in r.err or do in ("rename", "remove")
            and "rel.nfo" not in dict(o.stored)
            or do == "verify" and not o.vols):
        return "false-failure", ""
    new = {p: b for p, b in tree.items() if p.startswith(OUT + "/")
           and p != OUT + "/keep" and p not in sim.denied}
    if do in ("create", "createsfv"):
        if not good:
            if new:
                return "failure-left-result", sorted(new)
            return None
        srr = tree.get(OUT + "/n.srr")
        if srr is None:
            return "false-success", "no SRR"
        if sound(srr):
            return "false-success", "broken SRR: " + sound(srr)
        for n in o.rs.names:
            v = disk.get(IN + "/" + n)
            if do == "create" and IN + "/" + n == path and n != \
                    o.rs.names[0]:
                continue    # may not be recognised as part of the set
            why = rar_sound(v)
            if why:
                return "damage-accepted", "%s %s" % (n, why)
            if rar_meta(v) not in srr and (do == "createsfv" or n ==
                                           o.rs.names[0]):
                return "false-success", "meta data of %s not stored" % n
    if do in ("mksrs", "check"):
        if not good:
            return ("failure-left-result", sorted(new)) if new else None
        if len(new) != 1:
            return "false-success", "results: %s" % sorted(new)
        b = list(new.values())[0]
        samp = disk[W + "/s/" + o.m.name]
        crc = zlib.crc32(samp) & 0xFFFFFFFF
        if struct.pack("<I", crc) not in b and struct.pack(
                ">I", crc) not in b:
            return "false-success", "checksum of the sample not stored"
    if do in ("rebuild", "rebuildmain"):
        if not good:
            return ("failure-left-result", sorted(new)) if new else None
        if len(new) != 1:
            return "false-success", "results: %s" % sorted(new)
        b = list(new.values())[0]
        if struct.pack("<I", o.m.crc) in disk[W + "/x.srs"] and b != \
                o.m.sample:
            return "false-success", "result differs from the sample"
    if do in ("extract", "regex") and good:
        have = set(d for _, d in stored_of(data))
        odd = [p for p, b in new.items() if b not in have]
        if odd:
            return "false-success", "not the stored bytes: %s" % odd
    return None


def stored_of(data):
    """[(raw name, bytes)] of a sound SRR"""
    res, pos = [], 0
    while pos + 7 <= len(data):
        crc, t, fl, sz = struct.unpack_from("<HBHH", data, pos)
        if sz < 7:
            break
        add = 0
        if t == 0x6A and sz >= 11:
            # without the flag nothing tells that data follows
            add = struct.unpack_from("<I", data, pos + 7)[0]
            res.append((data[pos + 13:pos + sz],
                        data[pos + sz:pos + sz + add]))
            if not fl & 0x8000:
                add = 0
        elif t == 0x74:
            pass
        elif sz >= 11 and fl & 0x8000 and t not in (0x78,) and not (
                t == 0x7A and data[pos + 32:pos + 34] == b"RR"):
            add = struct.unpack_from("<I", data, pos + 7)[0]
        pos += sz + add
    return res


def walk_rar(data):
    """[(type, header, data, complete)]"""
    res, pos, ended = [], 0, False
    while pos < len(data):
        if ended:
            res.append((None, b"", data[pos:], True))
            break
        if pos + 7 > len(data):
            res.append((None, data[pos:], b"", False))
            break
        crc, t, fl, sz = struct.unpack_from("<HBHH", data, pos)
        add = 0
        if sz < 7 or pos + sz > len(data):
            res.append((t, data[pos:], b"", False))
            break
        if sz >= 11 and (fl & 0x8000 or t in (0x74, 0x7A)) and t != 0x72:
            add = struct.unpack_from("<I", data, pos + 7)[0]
            if t == 0x74 and fl & 0x100 and sz >= 36:
                add += struct.unpack_from("<I", data, pos + 32)[0] << 32
        res.append((t, data[pos:pos + sz], data[pos + sz:pos + sz + add],
                    pos + sz + add <= len(data)))
        pos += sz + add
        ended = t == 0x7B
    return res


def rar_sound(data):
    for t, h, d, full in walk_rar(data):
        if not full:
            return "block %s of %d bytes is cut" % (t, len(h))
    return ""


def rar_meta(data):
    out = b""
    for t, h, d, full in walk_rar(data):
        if t is None:
            out += struct.pack("<HBHHI", 0x6C6C, 0x6C, 0x8000, 11,
                               len(d)) + d
        elif t == 0x74 or t == 0x78 or (t == 0x7A and h[32:34] == b"RR"
                                        and h[26:28] == b"\2\0"):
            out += h
        else:
            out += h + d
    return out
