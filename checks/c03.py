"""C03: creating an SRR is all or nothing."""
import os
import random
import struct

from sim import core, fixtures as F
from sim.common import STATE, W, cli, result, violation

import rescene
from rescene import main as rmain, srr as rsrr, rar as rrar, utility
from rescene import rarstream, osohash

STATE.add(rescene, rmain, rsrr, rrar, utility, rarstream, osohash)

BUDGET = {"quick": (240, 12, 120), "thorough": (6000, 30, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EBUSY", "EMFILE", "SHORT", "KBINT")
SITE_WEIGHTS = {"rename": 4, "unlink": 3, "write": 3, "creat": 3, "open": 2}
RULE = ("A run is a release (1-2 RAR sets in any naming style, stored files, "
        "SFVs) and 1-3 creation attempts over it (command line or library) "
        "with 0-3 I/O faults, damaged or missing inputs and overwrite "
        "answers; non-trivial when an SRR was written or a fault fired.")
REAL = ["rescene.srr command line (create)", "rescene.main.create_srr",
        "rescene.rar", "rescene.rarstream", "rescene.osohash",
        "rescene.utility", "io.Buffered*"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdin/stdout",
        "OS thread scheduling (simulated)"]
APP = rescene.APPNAME
OLD = F.srr_header("an older application") + F.srr_stored("o.nfo", b"old" * 9)

STORE = ["rel.nfo", "Sample/a.srs", "Proof/p.jpg", "\xfcn.nfo", "[b].nfo",
         "zero.txt", "cover/big.bin", "x y.m3u"]


def plan(rng, tier):
    nsets = rng.choice([1, 1, 1, 2])
    sets = []
    for i in range(nsets):
        style = rng.choice(["old", "old", "part", "part2", "num"])
        big = rng.random() < .06
        nf = rng.choice([1, 1, 1, 2, 3])
        ext = rng.choice([".mkv", ".mkv", ".avi", ".bin"])
        sizes = [rng.randint(1, 900) for _ in range(nf)]
        if big:
            sizes[0] = rng.randint(66000, 140000)
        total = sum(sizes)
        nv = rng.choice([1, 2, 3, 4, 7])
        sets.append({
            "dir": "" if nsets == 1 and rng.random() < .7 else "CD%d" % (
                i + 1),
            "base": rng.choice(["rel", "rel.a-b", "Re-L"]) + (
                str(i) if nsets > 1 else ""),
            "seed": rng.getrandbits(32), "sizes": sizes, "ext": ext,
            "volsize": None if nv == 1 else max(1, -(-total // nv)),
            "style": style, "rr": rng.choice([None, None, "new", "old"]),
            "comment": rng.random() < .2,
            "padding": rng.choice([0, 0, 0, 5, 40]),
            "end": rng.choice(["full", "full", "plain", "none"]),
            "large": rng.random() < .15, "solid": rng.random() < .1,
            "rarext": rng.random() < .1,
            "method": 0x33 if rng.random() < .08 else 0x30,
            "dirs": ["emptydir"] if rng.random() < .1 else [],
            "sfv": rng.random() < .7,
            "case": rng.choice([None] * 6 + ["sfv-lower", "disk-lower",
                                             "disk-upper"])})
    for s in sets:
        if s["end"] == "none":
            s["padding"] = 0
        if s["case"]:   # the SFV and the folder spell the names differently
            s["sfv"] = True
        if s["style"] == "num":
            s["sfv"] = True   # only .sfv and .rar are accepted as input
    files = {n: rng.choice([0, 1, 40, 3000, 9000, 70000])
             for n in STORE if rng.random() < .7}
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        dmg = None
        if rng.random() < .2:
            si = rng.randrange(nsets)
            dmg = {"set": si, "vol": rng.randrange(8),
                   "kind": rng.choice(["missing", "trunc", "trunc", "empty",
                                       "garbage"]),
                   "at": rng.random()}
            if not sets[si]["sfv"] and dmg["kind"] == "missing":
                dmg = None
        st = rng.sample(sorted(files), min(len(files), rng.randint(0, 3)))
        if rng.random() < .1:
            st.append("missing.nfo")
        if rng.random() < .1:
            st.append(W + "/elsewhere/outside.nfo")
        ops.append({"do": "create", "store": st,
                    "paths": rng.random() < .6, "isdb": rng.random() < .7,
                    "compressed": rng.random() < .3,
                    "out": rng.choice(["file", "file", "dir", "parent"]),
                    "answer": rng.choice(["-y", "-y", "-n", "ask-y",
                                          "ask-n"]),
                    "via": rng.choice(["cli", "cli", "cli", "lib", "libtmp"]),
                    "verbose": rng.random() < .1, "damage": dmg})
    return {"sets": sets, "files": files, "ops": ops, "faults": [],
            "old": rng.choice([None, None, "srr", "junk"]),
            "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536]),
                      "dir_order": rng.choice(["sorted", "reverse",
                                               rng.randrange(1000)])}}


def shrink(scn):
    if len(scn["sets"]) > 1:
        yield dict(scn, sets=scn["sets"][:1])
    for i, s in enumerate(scn["sets"]):
        for k, v in (("rr", None), ("comment", False), ("padding", 0),
                     ("large", False), ("dirs", []), ("solid", False),
                     ("rarext", False), ("volsize", None), ("case", None),
                     ("sizes", s["sizes"][:1]), ("end", "full")):
            if s.get(k, v) != v:
                ss = list(scn["sets"])
                ss[i] = dict(s, **{k: v})
                yield dict(scn, sets=ss)
    for i, o in enumerate(scn["ops"]):
        for k, v in (("store", []), ("damage", None), ("verbose", False),
                     ("isdb", False)):
            if o[k] != v:
                oo = list(scn["ops"])
                oo[i] = dict(o, **{k: v})
                yield dict(scn, ops=oo)


def build(s):
    rng = random.Random(s["seed"])
    files = [("m%d%s" % (i, s["ext"]), F.rb(rng, n))
             for i, n in enumerate(s["sizes"])]
    return F.rarset(rng, base=s["base"], files=files, volsize=s["volsize"],
                    style=s["style"], rr=s["rr"], comment=s["comment"],
                    padding=s["padding"], end=s["end"], large=s["large"],
                    solid=s["solid"], ext=s["rarext"], method=s["method"],
                    dirs=s["dirs"])


def oso(data):
    h = len(data)
    for part in (data[:65536], data[-65536:]):
        for (x,) in struct.iter_unpack("<Q", part):
            h = (h + x) & 0xFFFFFFFFFFFFFFFF
    return struct.pack("<Q", h)


def fdata(name, size):
    return F.content(random.Random("c03" + name), size)


def damaged(data, d):
    """-> bytes or None; a truncation always cuts inside a header or inside
    packed data"""
    if d["kind"] == "missing":
        return None
    if d["kind"] == "empty":
        return b""
    if d["kind"] == "garbage":
        return b"\0" * len(data)
    spans = []
    pos = 0
    for t, h, b in F.rar_blocks(data):
        if t is None:
            break
        spans.append((pos + 1, pos + len(h) - 1))
        if t in (0x74, 0x78) or (t == 0x7A and h[32:34] == b"RR"):
            if len(b) > 1:
                spans.append((pos + len(h) + 1, pos + len(h) + len(b) - 1))
        pos += len(h) + len(b)
    n = sum(b - a + 1 for a, b in spans if b >= a)
    k = int(d["at"] * n)
    for a, b in spans:
        if b < a:
            continue
        if k <= b - a:
            return data[:a + k]
        k -= b - a + 1
    return data[:10]


def sname(s, n):
    """the volume's name in the SFV"""
    return n.lower() if s.get("case") == "sfv-lower" else n


def dname(s, n):
    """the volume's name on disk"""
    c = s.get("case")
    return n.lower() if c == "disk-lower" else (
        n.upper() if c == "disk-upper" else n)


def vname(s, n):
    """the volume's name in the SRR: that with capitals, the SFV's first"""
    a, b = sname(s, n), dname(s, n)
    return b if a == a.lower() and b != b.lower() else a


def create(sim, scn, op, sets):
    R = W + "/rel"
    infiles = []
    for s, rs in sets:
        d = R + ("/" + s["dir"] if s["dir"] else "")
        infiles.append(d + "/" + (rs.base + ".sfv" if s["sfv"]
                                  else rs.first))
    first = os.path.basename(infiles[0])[:-4] + ".srr"
    out = {"file": W + "/out.srr", "dir": W + "/o/" + first,
           "parent": W + "/o/rel.srr"}[op["out"]]
    if op["via"] in ("lib", "libtmp"):
        tmp = out + ".tmp" if op["via"] == "libtmp" else None

        def can(p):
            # without a temporary name the library writes the target in
            # place, so there it is only used with its default answer
            return tmp and op["answer"] in ("-y", "ask-y") or \
                not os.path.isfile(p)

        def body():
            rmain.can_overwrite = can
            try:
                r = rmain.create_srr(out, infiles, R, list(op["store"]),
                                     op["paths"], op["compressed"],
                                     op["isdb"], tmp_srr_name=tmp)
                if tmp and r:
                    utility.replace_result(tmp, out)
                return r
            finally:
                rmain.can_overwrite = old
                if tmp:
                    utility.remove_quietly(tmp)
        old = rmain.can_overwrite
        return out, lambda: sim.call(body)
    argv = list(infiles) + ["-i", R]
    for f in op["store"]:
        argv += ["-s", f]
    argv += ["-o", {"file": out, "dir": W + "/o",
                    "parent": W + "/o"}[op["out"]]]
    if op["out"] == "parent":
        argv.append("-d")
    for k, f in (("paths", "-p"), ("compressed", "-c"), ("verbose", "-v")):
        if op[k]:
            argv.append(f)
    if not op["isdb"]:
        argv.append("--no-isdb")
    text = ""
    if op["answer"].startswith("ask"):
        text = "?\n" + op["answer"][-1] + "\n"
    else:
        argv.append(op["answer"])
    return out, lambda: cli(sim, rsrr.main, argv, stdin_text=text)


def expect(scn, op, sets, disk):
    """independent model -> (stored list, tail bytes) or None: must fail"""
    R = W + "/rel/"
    stored = []
    for n in op["store"]:
        if n.startswith("/"):    # outside the base folder: no path is stored
            stored.append((os.path.basename(n), disk[n]))
        elif R + n in disk:
            stored.append((n if op["paths"] else os.path.basename(n),
                           disk[R + n]))
    tail = b""
    osos = []
    for s, rs in sets:
        d = s["dir"] + "/" if s["dir"] else ""
        if s["sfv"]:
            n = d + rs.base + ".sfv"
            stored.append((n if op["paths"] else os.path.basename(n),
                           disk[R + n]))
    seen = set()
    for s, rs in sets:
        d = s["dir"] + "/" if s["dir"] else ""
        for n in rs.names:
            v = disk.get(R + d + dname(s, n))
            if v != rs.vols[n]:
                return None
            if s["method"] != 0x30 and not op["compressed"]:
                return None
            n = vname(s, n)
            tail += F.srr_of_rar(d + n if op["paths"] else n, v)
        if s["method"] == 0x30:
            for f in rs.order:
                if f not in seen:
                    seen.add(f)
                    osos.append((f, rs.files[f]))
    if op["isdb"]:
        for f, data in osos:
            if os.path.splitext(f)[1] in (".mkv", ".avi") and len(
                    data) >= 65536:
                tail += F.srr_oso(f, len(data), oso(data))
    return stored, tail


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    sets = [(s, build(s)) for s in scn["sets"]]
    R = W + "/rel/"
    disk = {}
    for n, size in scn["files"].items():
        disk[R + n] = fdata(n, size)
    for s, rs in sets:
        d = R + (s["dir"] + "/" if s["dir"] else "")
        for n in rs.names:
            disk[d + dname(s, n)] = rs.vols[n]
        f = rs.sfv()
        for n in rs.names:
            f = f.replace(n.encode() + b" ", sname(s, n).encode() + b" ")
        disk[d + rs.base + ".sfv"] = f
    for p, b in disk.items():
        fs.put(p, b)
    fs.put(W + "/o/keep.txt", b"keep")
    disk[W + "/elsewhere/outside.nfo"] = b"from elsewhere"
    fs.put(W + "/elsewhere/outside.nfo", b"from elsewhere")
    disk[W + "/o/keep.txt"] = b"keep"
    if scn["old"]:
        for o in ("/out.srr", "/o/rel.srr", "/o/" + sets[0][1].base + ".srr"):
            disk[W + o] = OLD if scn["old"] == "srr" else b"not an srr"
            fs.put(W + o, disk[W + o])
    vs = []
    probes = {}

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    wrote = False
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            sim.op = i - 1
            pristine = dict(disk)
            dm = op["damage"]
            if dm and dm["set"] < len(sets):
                s, rs = sets[dm["set"]]
                names = rs.names
                n = names[dm["vol"] % len(names)]
                p = R + (s["dir"] + "/" if s["dir"] else "") + dname(
                    s, n)
                b = damaged(rs.vols[n], dm)
                if b is None:
                    fs.rm(p)
                    del disk[p]
                else:
                    fs.put(p, b)
                    disk[p] = b
            out, go = create(sim, scn, op, sets)
            exp = expect(scn, op, sets, disk)
            before = disk.get(out)
            decline = before is not None and (
                op["answer"] in ("-n", "ask-n") or op["via"] == "lib")
            r = go()
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            where = "op %d %s %s (%s)%s" % (
                i, op["via"], op["answer"], r, " after " + ", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                if fired else "")
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            if op["via"] == "cli":
                ok = r.kind == "exit" and r.value in (None, 0)
                said = "SRR file successfully created." in r.out
                refused = "SRR file not overwritten." in r.out
                if ok and not (said or refused):
                    vs.append(violation("silent-exit", where + r.out))
                    break
                if said and not ok:
                    vs.append(violation("success-and-failure", where))
                    break
                ok = ok and said
            else:
                ok = r.kind == "ok" and r.value is True
                refused = r.kind == "ok" and r.value is False
            if not hard:
                want = exp is not None and not decline
                if ok != want:
                    vs.append(violation(
                        "wrong-outcome", "%s: expected %s\n%s%s%s" % (
                            where, "success" if want else "failure",
                            r.tb, r.err[-400:], r.out[-200:])))
                    break
                if refused and not decline:
                    vs.append(violation("wrong-refusal", where))
                    break
            now = fs.get(out)
            if ok:
                if decline:
                    vs.append(violation("overwrote-declined", where))
                    break
                if exp is None:
                    vs.append(violation("success-from-bad-input", where))
                    break
                if now is None:
                    vs.append(violation("success-without-srr", where))
                    break
                try:
                    app, stored, tail, _ = F.parse_srr(now)
                except ValueError as e:
                    vs.append(violation("srr-corrupt", "%s: %s" % (where, e)))
                    break
                # documented: a file to store that can't be found is reported
                # and skipped; an unreadable directory counts as not found
                skipped = any(f[1] == "listdir" for f in hard) and (
                    op["via"] != "cli" or "not found: " in r.out + r.err)
                good = stored == exp[0] or (skipped and all(
                    x in exp[0] for x in stored))
                if app != APP or not good:
                    vs.append(violation("srr-stored-files", "%s: %s, expected "
                              "%s" % (where, [(n, len(b)) for n, b in stored],
                                      [(n, len(b)) for n, b in exp[0]])))
                    break
                if tail != exp[1]:
                    vs.append(violation(
                        "srr-rar-data", "%s: tail %d bytes, expected %d" % (
                            where, len(tail), len(exp[1]))))
                    break
                probe("created" + ("_despite_fault" if hard else ""))
                if before is not None:
                    probe("replaced_old")
                disk[out] = now
                pristine[out] = now
                wrote = True
            else:
                kb = any(f[0] == "KBINT" for f in hard)
                if now != before and out in [f[4] for f in fired
                                             if f[1] == "unlink"]:
                    fs.rm(out)     # the clean up itself was made to fail
                    disk.pop(out, None)
                    pristine.pop(out, None)
                elif now != before:
                    full = False
                    if kb and exp is not None and now is not None \
                            and not decline:
                        try:
                            a, st, tl, _ = F.parse_srr(now)
                            full = (a, st, tl) == (APP, exp[0], exp[1])
                        except ValueError:
                            pass
                    if not full:
                        vs.append(violation(
                            "failure-changed-target", "%s: was %s, now %s" % (
                                where, before and len(before),
                                now is not None and len(now))))
                        break
                    disk[out] = pristine[out] = now
                probe("declined" if decline else "failed")
            tree = fs.tree(W)
            noise = sim.denied
            extra = [p for p in tree if p not in disk and p not in noise]
            if extra:
                vs.append(violation("litter", "%s: left %s" % (where, extra)))
                break
            lost = [p for p in disk if tree.get(p) != disk[p]]
            if lost:
                vs.append(violation("user-file-changed", "%s: %s" % (
                    where, lost)))
                break
            for p in noise:
                if p not in disk and fs.exists(p):
                    fs.rm(p)
            # the user repairs the input
            for p, b in pristine.items():
                if fs.get(p) != b:
                    fs.put(p, b)
            disk = pristine
    return result(sim, vs, nontrivial=wrote or bool(sim.fired),
                  probes=probes)
