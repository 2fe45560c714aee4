"""C10: stored files are extracted exactly and stay inside the folder."""
import os
import random
import re

from sim import core, fixtures as F
from sim.common import STATE, W, cli, result, violation

import rescene
from rescene import main as rmain, srr as rsrr, rar as rrar, utility

STATE.add(rescene, rmain, rsrr, rrar, utility)

BUDGET = {"quick": (420, 8, 110), "thorough": (9000, 24, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "SHORT", "KBINT")
SITE_WEIGHTS = {"write": 4, "creat": 3, "mkdir": 2, "read": 3}
RULE = ("A run is an SRR with benign and hostile stored names and 1-3 "
        "extraction commands (all, by regex, by name through the library, "
        "flat or with paths, over existing files) with 0-3 I/O faults.")
REAL = ["rescene.srr command line (extract)", "rescene.main.extract_files",
        "rescene.rar", "rescene.utility.joinpath", "io.Buffered*"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdin/stdout",
        "OS thread scheduling (simulated)"]
SRR = W + "/home/rel.srr"
OUT = W + "/home/out"

GOOD = ["rel.nfo", "rel.sfv", "Sample/rel-sample.srs", "Proof/rel.jpg",
        "b c.txt", "\xfcn\xef.nfo", "[x].nfo", "Subs\\rel.sfv", "cd1/a.m3u",
        "cd1\\b\\c.bin", "-d.nfo", "~x", "a..b.nfo", "...", "..x.txt",
        "cd1/rel.nfo"]
EVIL = ["../evil.nfo", "..\\evil.nfo", "a/../../evil.nfo", "/sim/w/evil.nfo",
        "\\sim\\w\\evil.nfo", "a/../../../evil", "..", "../", "a/..", "",
        "/", "C:\\evil.nfo", "C:evil.nfo", "//srv/share/evil", "./x.nfo",
        "a//b.nfo", "a/./b.nfo", "../home/rel.srr", "../out2/evil.nfo",
        "a/../b.nfo", "..\\..\\..\\..\\..\\..\\tmp/evil", "x/", "../out/in.nfo",
        "..../evil", ". ./evil", "..\\/evil", "\\/evil", "a\\..\\..\\evil"]


def relative(rng, n):
    """a name that is easily mistaken for n"""
    return rng.choice(["z/" + n, "z/" + n, "z" + n, n + "x", n + "/" + n, n.upper(),
                       n.replace("\\", "/").rpartition("/")[2] or "q",
                       "z\\" + n, n.replace("/", "\\"), "./" + n, n[:-1]])


def plan(rng, tier):
    n = rng.randint(0, 5)
    names = [rng.choice(GOOD) for _ in range(n)]
    if rng.random() < .35:
        for _ in range(rng.choice([1, 1, 2])):
            names.insert(rng.randint(0, len(names)), rng.choice(EVIL))
    kin = None
    if names and rng.random() < .4:  # names that look like another name
        kin = rng.choice(names)
        for _ in range(rng.choice([1, 1, 2])):
            names.insert(rng.randint(0, len(names)), relative(rng, kin))
    if rng.random() < .85:
        names = list(dict.fromkeys(names))
    stored = [[x, rng.choice([0, 1, 50, 3000, 9000, 40000])] for x in names]
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = {"do": "extract", "paths": rng.random() < .7,
              "mode": rng.choice(["all", "all", "all", "regex", "name", "lib",
                                   "recon"]),
              "parent": rng.random() < .15,
              "answer": rng.choice(["-y", "-y", "-n", "ask-y", "ask-n"]),
              "clear": rng.random() < .6, "pre": rng.random() < .25,
              "prei": rng.randrange(9),
              "regex": rng.choice([".*nfo$", ".*\\.(nfo|sfv)$", "^sample/.*",
                                   "rel", ".*e.*", "zzz"]),
              "name": kin if kin and rng.random() < .7 else
              rng.choice((names or ["x"]) + ["nope.nfo", "rel.nfo"]),
              "outdir": rng.choice(["exists", "exists", "new"])}
        if kin and rng.random() < .6:
            op["mode"] = "name"
        ops.append(op)
    return {"stored": stored, "vols": rng.choice([0, 0, 1]),
            "volname": rng.choice(EVIL) if rng.random() < .3 else "rel.rar",
            "cut": rng.random() if rng.random() < .1 else None, "ops": ops,
            "faults": [], "seed": rng.getrandbits(32),
            "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536])}}


def shrink(scn):
    for i in range(len(scn["stored"])):
        yield dict(scn, stored=scn["stored"][:i] + scn["stored"][i + 1:])
    if scn.get("cut"):
        yield dict(scn, cut=None)
    for i, (n, k) in enumerate(scn["stored"]):
        if k > 1:
            st = list(scn["stored"])
            st[i] = [n, 1]
            yield dict(scn, stored=st)


def benign(n):
    parts = n.replace("\\", "/").split("/")
    return all(p not in ("", ".", "..") for p in parts) and not (
        len(parts[0]) > 1 and parts[0][1] == ":")


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    stored = [(n, F.content(random.Random("%s%d%s" % (scn["seed"], i, n)), k))
              for i, (n, k) in enumerate(scn["stored"])]
    srr = F.srr_header("pyReScene Test")
    for n, d in stored:
        srr += F.srr_stored(n, d)
    if scn["vols"]:
        rs = F.rarset(random.Random(scn["seed"]),
                      files=[("m.mkv", b"x" * 100)])
        srr += F.srr_of_rar(scn["volname"], rs.vols[rs.first])
    if len(srr) < 20:
        srr += F.srr_stored("pad.nfo", b"")
        stored.append(("pad.nfo", b""))
    cut = scn.get("cut")
    if cut and stored and stored[-1][1] and not scn["vols"]:
        n = len(stored[-1][1])
        srr = srr[:-(1 + int(cut * (n - 1)))]
    else:
        cut = None
    disk = {W + "/src/m.mkv": b"x" * 100, SRR: srr, W + "/home/other.txt": b"precious",
            W + "/home/out2/evil.nfo": b"precious2",
            W + "/evil.nfo": b"precious3"}
    for p, b in disk.items():
        fs.put(p, b)
    vs = []
    probes = {}

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            sim.op = i - 1
            if op["clear"]:
                for p in fs.tree(OUT):
                    fs.rm(p)
            if op["outdir"] == "exists":
                fs.mkdirs(OUT)
            base = OUT
            if op["parent"] and op["mode"] in ("all", "regex"):
                base = OUT + "/rel"

            def dest(n):
                n = n.replace("\\", "/")
                return base + "/" + (n if op["paths"] else
                                     os.path.basename(n))
            if op["pre"] and stored:
                n = stored[op["prei"] % len(stored)][0]
                if benign(n) and not fs.exists(dest(n)):
                    try:
                        fs.put(dest(n), b"already here" * 20)
                    except OSError:
                        pass
            before = fs.tree(OUT)
            allow = op["answer"] in ("-y", "ask-y")
            if op["mode"] == "all":
                want = list(stored)
            elif op["mode"] == "regex":
                rx = re.compile(op["regex"], re.I)
                want = [x for x in stored if rx.match(x[0])]
            elif op["mode"] == "name":
                nm = op["name"]

                def picked(n):
                    on = n.replace("\\", "/")
                    return nm and (
                        nm == os.path.basename(nm) == os.path.basename(on)
                        or os.path.normpath(nm) == on)
                want = [x for x in stored if picked(x[0])] if nm else stored
            else:
                want = list(stored)
            if op["mode"] in ("name", "lib"):
                def body():
                    old = rmain.can_overwrite
                    rmain.can_overwrite = lambda p: (
                        allow or not os.path.isfile(p))
                    try:
                        return rmain.extract_files(
                            SRR, OUT, op["paths"],
                            op["name"] if op["mode"] == "name" else "")
                    finally:
                        rmain.can_overwrite = old
                r = sim.call(body)
            else:
                argv = [SRR, "-o", OUT]
                argv += {"all": ["-x"], "regex": [
                    "--extract-regex", op["regex"]],
                    "recon": ["-i", W + "/src"]}[op["mode"]]
                if op["paths"]:
                    argv.append("-p")
                if op["parent"]:
                    argv.append("-d")
                text = ""
                if op["answer"].startswith("ask"):
                    text = ("?\n" + op["answer"][-1] + "\n") * 30
                else:
                    argv.append(op["answer"])
                r = cli(sim, rsrr.main, argv, stdin_text=text)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            # one unusable name may make the whole command fail
            evil = [n for n, _ in stored if not benign(n)]
            where = "op %d %s %s of %s (%s)%s" % (
                i, op["mode"], op["answer"], [n for n, _ in want], r,
                " after " + ", ".join("%s@%s %s" % (f[0], f[1], f[4])
                                      for f in fired) if fired else "")
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            now = fs.tree(OUT)
            outside = {p: b for p, b in fs.tree(W).items()
                       if not p.startswith(OUT + "/")}
            if outside != disk:
                vs.append(violation("outside-the-folder", "%s: %s" % (
                    where, [p for p in set(outside) | set(disk)
                            if outside.get(p) != disk.get(p)])))
                break
            if sim.fs.escapes:
                break
            if op["mode"] == "recon":
                # rebuilding: only containment is decided here (C05 has the
                # rest)
                probe("recon")
                for p in now:
                    if p not in before:
                        fs.rm(p)
                continue
            if r.kind == "exit":
                ok = r.value in (None, 0)
                reported = [(base + "/" + x[:-len(": extracted.")])
                            for x in r.out.splitlines()
                            if x.endswith(": extracted.")]
            else:
                ok = r.kind == "ok" and all(s for _, s in r.value)
                reported = [p for p, s in r.value if s] \
                    if r.kind == "ok" else []
            # clashing destinations (same name twice, file used as folder)
            dests = [os.path.normpath(dest(n)) for n, _ in want]
            clash = len(set(dests)) != len(dests) or any(
                a != b and b.startswith(a + "/") for a in dests
                for b in dests) or any(
                    b.startswith(a + "/") for a in before for b in dests) \
                or any(a.startswith(b + "/") for a in before for b in dests)
            final = {}
            for (n, d), p in zip(want, dests):
                final.setdefault(p, []).append(d)
            for p in set(os.path.normpath(x) for x in reported):
                if p in final and now.get(p) not in final[p]:
                    vs.append(violation("reported-not-exact", "%s: %s %s" % (
                        where, p, p in now and len(now[p]))))
                    break
            if vs:
                break
            extra = [p for p in now if p not in before and p not in dests
                     and not evil]
            if extra:
                vs.append(violation("unrequested-file", "%s: %s" % (
                    where, extra)))
                break
            lost = [p for p in before if now.get(p) != before[p]
                    and (not allow or (p not in dests and not evil))]
            if lost:
                vs.append(violation("replaced-without-permission",
                                    "%s: %s" % (where, lost)))
                break
            if not evil and not clash:
                exact = all(now.get(p) == d[0] for p, d in final.items()
                            if allow or p not in before)
                blocked = not allow and any(p in before for p in dests)
                if ok and (not exact or blocked):
                    vs.append(violation(
                        "silent-failure", "%s: %s" % (where, [
                            (p, len(now[p]) if p in now else None, len(d[0]))
                            for p, d in final.items()])))
                    break
                if not hard and not ok and not blocked and not cut:
                    vs.append(violation("wrong-outcome", "%s\n%s%s" % (
                        where, r.tb, r.err[-300:])))
                    break
                if not hard and not exact and not cut:
                    vs.append(violation("not-extracted", "%s\n%s%s" % (
                        where, r.tb, r.err[-300:])))
                    break
            probe("evil" if evil else "clash" if clash else
                  "ok" if ok else "failed")
    return result(sim, vs, probes=probes)
