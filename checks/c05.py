"""C05: rebuilt RAR volumes are exact or the failure is reported."""
import os
import random
import zlib

from sim import core, fixtures as F
from sim.common import STATE, W, cli, result, violation

import rescene
from rescene import main as rmain, srr as rsrr, rar as rrar, utility
from rescene import rarstream, osohash

STATE.add(rescene, rmain, rsrr, rrar, utility, rarstream, osohash)

BUDGET = {"quick": (260, 10, 110), "thorough": (6000, 30, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "SHORT", "KBINT")
SITE_WEIGHTS = {"write": 3, "creat": 3, "mkdir": 3, "open": 2}
RULE = ("A run is a release (1-2 RAR sets in any layout), the SRR built for "
        "it and 1-3 reconstruction commands (paths, hints, auto locate, "
        "single volumes, subsets, existing files) with 0-3 I/O faults; "
        "non-trivial when a volume was rebuilt or a fault fired.")
REAL = ["rescene.srr command line (reconstruct)", "rescene.main.reconstruct",
        "rescene.main recovery record / repack / extract", "rescene.rar",
        "io.Buffered*"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdin/stdout",
        "OS thread scheduling (simulated)"]
SRR = W + "/rel.srr"
IN = W + "/in"
OUT = W + "/out"


def plan_set(rng, i, nsets, maxfiles=4, used=()):
    style = rng.choice(["old", "old", "part", "part2", "num"])
    nf = rng.choice([1, 1, 1, 2, 3, maxfiles])
    ext = rng.choice([".mkv", ".avi", ".bin"])
    sizes = []
    for _ in range(nf):
        while True:
            n = rng.choice([rng.randint(1, 900), rng.randint(1, 900),
                            rng.randint(1, 5000), rng.randint(60000, 140000)
                            if rng.random() < .15 else rng.randint(1, 20), 0])
            if n not in sizes and n not in used:
                break
        sizes.append(n)
    total = max(1, sum(sizes))
    nv = rng.choice([1, 2, 3, 4, 7, 12])
    end = rng.choice(["full", "full", "plain", "none"])
    return {
        "dir": "" if nsets == 1 and rng.random() < .7 else "CD%d" % (i + 1),
        "base": rng.choice(["rel", "rel.a-b", "Re-L"]) + (
            str(i) if nsets > 1 else ""),
        "seed": rng.getrandbits(32), "sizes": sizes, "ext": ext,
        "sub": rng.choice(["", "", "", "dir", "d1\\d2"]),
        "names": rng.choice(["diff", "diff", "same", "case", "prefix"]),
        "volsize": None if nv == 1 else max(1, -(-total // nv)),
        "style": style, "rr": rng.choice([None, None, "new", "old"]),
        "rsectors": rng.choice([1, 2, 3, 8]),
        "keeprr": rng.random() < .15, "comment": rng.random() < .2,
        "padding": 0 if end == "none" else rng.choice([0, 0, 0, 5, 40]),
        "end": end, "large": rng.random() < .15, "solid": rng.random() < .1,
        "rarext": rng.random() < .1,
        "dirs": ["emptydir"] if rng.random() < .15 else [],
        "crc0": rng.random() < .06,
        "usize": rng.choice([None] * 18 + ["last", "none"])}


def build(s, i=0):
    rng = random.Random(s["seed"])
    pre = s["sub"] + "\\" if s["sub"] else ""
    form = {"same": lambda j: "f%d_%d\\m%s" % (i, j, s["ext"]),
            "case": lambda j: ("f%d\\%s%s" if j < 4 else "f%d\\m%s%s") % (
                i, ["m", "M", "mM", "MM"][j] if j < 4 else str(j), s["ext"]),
            "prefix": lambda j: "p%d%s%s" % (i, "x" * j, s["ext"]),
            }.get(s.get("names"), lambda j: "m%d_%d%s" % (i, j, s["ext"]))
    files = [(pre + form(j), F.rb(rng, n)) for j, n in enumerate(s["sizes"])]
    if s.get("share"):      # a file that is in the other archive too
        at, n, seed = s["share"]
        files[at % (len(files) + 1):0] = [
            ("shared" + s["ext"], F.rb(random.Random(seed), n))]
    if s.get("crc0"):       # a checksum that looks like there is none
        files = [(n, F.zero_crc(d)) for n, d in files]
    return F.rarset(rng, base=s["base"], files=files, volsize=s["volsize"],
                    style=s["style"], rr=s["rr"], rsectors=s["rsectors"],
                    comment=s["comment"], padding=s["padding"], end=s["end"],
                    large=s["large"], solid=s["solid"], ext=s["rarext"],
                    dirs=s["dirs"], zeropart=s.get("zeropart", False),
                    usize=s.get("usize"))


def build_srr(scn, sets):
    """-> (srr bytes, {volume name in SRR: bytes}, [(stored, bytes)])"""
    out = F.srr_header("pyReScene Test")
    vols = {}
    stored = [(n, F.content(random.Random("c05" + n), k))
              for n, k in sorted(scn["stored"].items())]
    for s, rs in sets:
        d = s["dir"] + "/" if s["dir"] else ""
        stored.append((d + rs.base + ".sfv", rs.sfv()))
    for n, b in stored:
        out += F.srr_stored(n, b)
    for s, rs in sets:
        d = s["dir"] + "/" if s["dir"] else ""
        for n in rs.names:
            out += F.srr_of_rar(d + n, rs.vols[n], s["keeprr"])
            vols[d + n] = rs.vols[n]
        if scn.get("oso"):
            out += F.srr_oso("x.mkv", 123456)
    return out, vols, stored


STORED = ["rel.nfo", "Sample/s.srs", "Proof/p.jpg", "\xfc.txt"]


def share(rng, sets):
    n, seed = rng.choice([0, 77, 1931, 40961]), rng.getrandbits(32)
    ext = sets[0]["ext"]
    for i, s in enumerate(sets):
        at = rng.choice([-i - 1, -i - 1, rng.randrange(3)]) % (
            len(s["sizes"]) + 1)
        if s["volsize"]:
            s["volsize"] = max(s["volsize"], -(-(sum(s["sizes"]) + n) // 12))
        s.update(ext=ext, share=[at, n, seed], crc0=sets[0]["crc0"])


def plan(rng, tier):
    nsets = rng.choice([1, 1, 1, 2])
    sets = []
    for i in range(nsets):   # auto locate goes by size: make those differ
        sets.append(plan_set(rng, i, nsets, used=[
            n for s in sets for n in s["sizes"]]))
    if nsets > 1 and rng.random() < .3:
        share(rng, sets)
    scn = {"sets": sets, "oso": rng.random() < .3,
           "stored": {n: rng.choice([0, 1, 300, 9000])
                      for n in STORED if rng.random() < .4},
           "faults": [],
           "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536]),
                     "dir_order": rng.choice(["sorted", "reverse",
                                              rng.randrange(1000)])}}
    built = [(s, build(s, i)) for i, s in enumerate(sets)]
    names = [(s["dir"] + "/" if s["dir"] else "") + n
             for s, rs in built for n in rs.names]
    inner = [n for s, rs in built for n in rs.order]
    # how the sources lie on disk
    place = {}
    for n in inner:
        k = rng.random()
        place[n] = "plain" if k < .7 else "hint" if k < .85 else "renamed"
    scn["place"] = place
    # auto locate while a file of the same size and type lies elsewhere
    scn["auto"] = rng.random() < .25
    scn["decoys"] = {n: rng.choice(["", "aa/", "zz/"]) for n in inner
                     if place[n] != "renamed" and rng.random() < .5
                     } if scn["auto"] else {}
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        part = None
        if rng.random() < .3:
            if rng.random() < .7:
                v = rng.choice(names)
                part = rng.choice([v, os.path.basename(v), v[-4:], v[-6:]])
                if sum(x.endswith(part) for x in names) != 1:
                    part = v
                if sum(x.endswith(part) for x in names) != 1:
                    part = None
            else:
                s, rs = rng.choice(built)
                part = (s["dir"] + "/" if s["dir"] else "") + rs.base + "*"
        ops.append({"do": "recon", "paths": rng.random() < .6,
                    "part": part, "nocrc": rng.random() < .1,
                    "answer": rng.choice(["-y", "-y", "-n", "ask-y",
                                          "ask-n"]),
                    "clear": rng.random() < .7,
                    "pre": rng.choice([None, None, None, "vol", "stored"]),
                    "prei": rng.randrange(20),
                    "via": rng.choice(["cli", "cli", "lib"])})
    scn["ops"] = ops
    return scn


def shrink(scn):
    if len(scn["sets"]) > 1:
        yield dict(scn, sets=scn["sets"][:1])
    if scn["stored"]:
        yield dict(scn, stored={})
    if scn.get("decoys"):
        yield dict(scn, decoys={})
    if scn.get("auto"):
        yield dict(scn, auto=False)
    if any(v != "plain" for v in scn["place"].values()):
        yield dict(scn, place={n: "plain" for n in scn["place"]})
    for i, s in enumerate(scn["sets"]):
        for k, v in (("rr", None), ("comment", False), ("padding", 0),
                     ("large", False), ("dirs", []), ("crc0", False),
                     ("usize", None), ("solid", False), ("share", None),
                     ("keeprr", False),
                     ("rarext", False), ("volsize", None), ("sub", ""),
                     ("sizes", s["sizes"][:1]), ("end", "full")):
            if s.get(k) != v:
                ss = list(scn["sets"])
                ss[i] = dict(s, **{k: v})
                yield dict(scn, sets=ss)
    for i, o in enumerate(scn["ops"]):
        for k, v in (("part", None), ("pre", None), ("via", "cli"),
                     ("nocrc", False)):
            if o.get(k) != v:
                oo = list(scn["ops"])
                oo[i] = dict(o, **{k: v})
                yield dict(scn, ops=oo)


def lay_out(fs, scn, sets):
    """put the sources; -> ({path: bytes}, {inner: path}, hints, renamed?)"""
    disk, where, hints, auto = {}, {}, {}, False
    for s, rs in sets:
        for n in rs.order:
            if n in where:      # in two of the archives
                continue
            k = scn["place"].get(n, "plain")
            if k == "renamed" and any(
                    s2.get("usize") for s2, rs2 in sets if n in rs2.files):
                k = "hint"      # found by its size, that isn't known
            p = n.replace("\\", "/")
            if k == "hint":
                p = "ren/%d/%s" % (len(where), os.path.basename(p).upper())
                hints[n.replace("\\", "/") if False else n] = p
            elif k == "renamed":
                p = "some/where%d/z%s" % (len(where), os.path.basename(p))
                auto = True
            where[n] = IN + "/" + p
            disk[IN + "/" + p] = rs.files[n]
    for i, (n, d) in enumerate(sorted((scn.get("decoys") or {}).items())):
        for s, rs in sets:
            if n in rs.files and scn["place"].get(n) != "renamed":
                p = IN + "/%sother%d%s" % (d, i, os.path.splitext(n)[1])
                disk[p] = bytes(x ^ 0x55 for x in rs.files[n])
    for p, b in disk.items():
        fs.put(p, b)
    return disk, where, hints, auto or bool(scn.get("auto"))


def reconstruct(sim, op, hints, auto):
    if op["via"] == "lib":
        ans = op["answer"] in ("-y", "ask-y")

        def body():
            old = rmain.can_overwrite
            rmain.can_overwrite = lambda p: ans or not os.path.isfile(p)
            try:
                return rmain.reconstruct(
                    SRR, IN, OUT, op["paths"], dict(hints), op["nocrc"],
                    auto, False, None, None, op["part"] is None,
                    op["part"] or "")
            finally:
                rmain.can_overwrite = old
        return sim.call(body)
    argv = [SRR, "-i", IN, "-o", OUT]
    if op["paths"]:
        argv.append("-p")
    if op["part"]:
        argv += ["-m", op["part"]]
    if op["nocrc"]:
        argv.append("-u")
    if auto:
        argv.append("-r")
    if hints:
        argv += ["-H", ";".join("%s:%s" % x for x in sorted(hints.items()))]
    text = ""
    if op["answer"].startswith("ask"):
        text = ("?\n" + op["answer"][-1] + "\n") * 60
    else:
        argv.append(op["answer"])
    return cli(sim, rsrr.main, argv, stdin_text=text)


def targets(op, vols, stored):
    """-> ({path: bytes} volumes, {path: bytes} stored files)"""
    f = (lambda n: n) if op["paths"] else os.path.basename
    part = op["part"]
    tv = {}
    for n, b in vols.items():
        if part and not (n.endswith(part) or (
                part.endswith("*") and n.startswith(part[:-1]))):
            continue
        tv[OUT + "/" + f(n)] = b
    ts = {} if part else {OUT + "/" + f(n): b for n, b in stored}
    return tv, ts


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    sets = [(s, build(s, i)) for i, s in enumerate(scn["sets"])]
    srr, vols, stored = build_srr(scn, sets)
    fs.put(SRR, srr)
    disk, where_, hints, auto = lay_out(fs, scn, sets)
    disk[SRR] = srr
    fs.mkdirs(OUT)
    vs = []
    probes = {}

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    rebuilt = False
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            sim.op = i - 1
            tv, ts = targets(op, vols, stored)
            if op["clear"]:
                for p in fs.tree(OUT):
                    fs.rm(p)
            pool = {"vol": tv, "stored": ts, None: {}}[op["pre"]]
            if pool:
                p = sorted(pool)[op["prei"] % len(pool)]
                fs.put(p, b"the user's own file" * 40)
            before = fs.tree(OUT)
            allow = op["answer"] in ("-y", "ask-y")
            r = reconstruct(sim, op, hints, auto)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            where = "op %d %s%s (%s)%s" % (
                i, op["via"], " " + op["part"] if op["part"] else "", r,
                " after " + ", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                if fired else "")
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            text = r.out + r.err
            if op["via"] == "cli":
                ok = r.kind == "exit" and r.value in (None, 0)
                aborted = "Operation aborted. Archive" in text
            else:
                ok = r.kind == "ok"
                aborted = ok and r.value == -1
            now = fs.tree(OUT)
            blocked = not allow and [p for p in tv if p in before]
            if not hard:
                if not ok:
                    vs.append(violation("wrong-outcome", "%s: failed\n%s%s" % (
                        where, r.tb, r.err[-600:])))
                    break
                if bool(aborted) != bool(blocked):
                    vs.append(violation("wrong-abort", "%s: aborted %s, "
                                        "existing volumes %s" % (
                                            where, aborted, blocked)))
                    break
            if "CRC mismatch" in text and not any(
                    f[1] == "read" for f in hard):
                vs.append(violation("false-crc-message", "%s: %s" % (
                    where, text[-400:])))
                break
            if ok and not aborted:
                if blocked:
                    vs.append(violation("success-although-blocked", where))
                    break
                bad = [p for p, b in tv.items() if now.get(p) != b]
                if bad:
                    vs.append(violation(
                        "volume-not-exact", "%s: success but %s" % (where, [
                            (p, len(now[p]) if p in now else None,
                             len(tv[p])) for p in bad])))
                    break
                bad = [p for p, b in ts.items() if now.get(p) != b
                       and (allow or p not in before)]
                if bad:
                    vs.append(violation("stored-not-exact", "%s: success but "
                                        "%s" % (where, bad)))
                    break
                rebuilt = True
                probe("rebuilt" + ("_despite_fault" if hard else ""))
            else:
                probe("aborted" if aborted else "failed")
            if not allow:
                lost = [p for p in before if now.get(p) != before[p]]
                if lost:
                    vs.append(violation("replaced-without-permission",
                                        "%s: %s" % (where, lost)))
                    break
            extra = [p for p in now if p not in before and p not in tv
                     and p not in ts]
            changed = [p for p in before if p not in tv and p not in ts
                       and now.get(p) != before[p]]
            if extra or changed:
                vs.append(violation("unrelated-files", "%s: %s %s" % (
                    where, extra, changed)))
                break
            lost = [p for p in disk if fs.get(p) != disk[p]]
            rest = [p for p in fs.tree(W) if p not in disk
                    and not p.startswith(OUT + "/")]
            if lost or rest:
                vs.append(violation("input-changed", "%s: %s %s" % (
                    where, lost, rest)))
                break
    return result(sim, vs, nontrivial=rebuilt or bool(sim.fired),
                  probes=probes)
