"""C04: creating an SRS is all or nothing."""
import os
import random

from sim import core, fixtures as F, media
from sim.common import STATE, W, cli, result, violation

import rescene
import resample
from rescene import main as rmain, utility, rarstream, rar as rrar
from resample import main as smain, srs, fpcalc

STATE.add(rescene, resample, rmain, utility, rarstream, rrar, smain, srs,
          fpcalc)

BUDGET = {"quick": (600, 7, 110), "thorough": (9000, 24, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EBUSY", "EMFILE", "SHORT", "KBINT",
         "CRASH", "TORN", "ENOMEM")
SITE_WEIGHTS = {"rename": 4, "unlink": 3, "write": 3, "creat": 3, "open": 2,
                "spawn": 3}
RULE = ("A run is a sample of any container type (AVI, MKV, MP4, WMV, FLAC, "
        "MP3, stream), intact or damaged, and 1-3 creation attempts with any "
        "option set, existing targets and overwrite answers, optionally "
        "checked against a main file (plain or in RARs, right or wrong), "
        "with 0-3 I/O faults, interrupts or process deaths; non-trivial when "
        "an SRS was written or a fault fired.")
REAL = ["resample.srs command line (create, list, rebuild)", "resample.main",
        "resample.ebml/riff/mov/asf/flac/mp3", "resample.fpcalc",
        "rescene.rarstream", "rescene.utility", "io.Buffered*"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdin/stdout",
        "fpcalc program (stub process)"]
OLD = b"an older SRS file" * 3
S = W + "/rel/Sample/"
M = W + "/main/"


def plan_main(rng, m=None):
    """where the main file is"""
    return rng.choice([None, None, {
        "style": rng.choice(["old", "part", "part2"]),
        "vols": rng.choice([1, 2, 3, 5]),
        "extra": rng.choice([None, None, None, "before", "after"]),
        "seed": rng.getrandbits(30)}])


def put_main(disk, spec, m, where, name="main"):
    """-> path to give to the program"""
    fn = name + m.main_ext
    if where is None:
        disk[M + fn] = m.main
        return M + fn
    rng = random.Random(where["seed"])
    files = [(fn, m.main)]
    if where["extra"]:
        # only files that start in the first volume are looked at
        x = ("extra.idx", F.rb(rng, 3 if where["extra"] == "before" else
                               rng.choice([3, 400])))
        # the first file with a known extension is used; .divx is none
        files.insert(0 if where["extra"] == "before" and not fn.endswith(
            ".divx") else 1, x)
    total = sum(len(d) for _, d in files)
    nv = where["vols"]
    rs = F.rarset(rng, base=name, files=files,
                  volsize=None if nv == 1 else max(5, -(-total // nv)),
                  style=where["style"])
    for n in rs.names:
        disk[M + n] = rs.vols[n]
    return M + rs.first


def other(spec, kind=None):
    """a different movie"""
    s = dict(spec, seed=spec["seed"] ^ 0x5A5A5A)
    if s.get("att") and spec["seed"] % 2:
        s["att"] -= 1       # it lacks an attachment
    return s


def plan(rng, tier):
    spec = media.plan(rng, tier=tier)
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        dmg = None
        if rng.random() < .15:
            dmg = {"kind": rng.choice(["trunc", "trunc", "grow", "flip",
                                       "empty"]),
                   "at": rng.random(), "n": rng.choice([1, 7, 300])}
        ops.append({
            "do": "create", "damage": dmg,
            "check": rng.choice([None] * 8 + ["right"] * 9 + [
                "wrong", "otherkind", "missing"]),
            "main": plan_main(rng),
            "out": rng.choice(["file"] * 6 + ["dir"] * 3 + [
                "cwd", "d", "dd", "cwd", "d", "dd", "ddd", "nodir"]),
            "answer": rng.choice(["-y", "-y", "ask-y", "ask-n"]),
            "big": rng.random() < .15, "info": rng.random() < .05,
            "noexit": rng.random() < .2,
            "fpcalc": rng.choice(["ok"] * 12 + ["tagged", "error",
                                                "missing"])})
    return {"media": spec, "ops": ops, "faults": [],
            "old": rng.random() < .4,
            "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536])}}


def shrink(scn):
    for s in media.shrink(scn["media"]):
        yield dict(scn, media=s)
    for i, o in enumerate(scn["ops"]):
        for k, v in (("damage", None), ("main", None), ("check", None),
                     ("big", False), ("out", "file"), ("answer", "-y"),
                     ("noexit", False), ("fpcalc", "ok")):
            if o[k] != v:
                oo = list(scn["ops"])
                oo[i] = dict(o, **{k: v})
                yield dict(scn, ops=oo)


def damaged(data, d):
    n = len(data)
    k = int(d["at"] * n)
    if d["kind"] == "trunc":
        return data[:min(k, n - 1)]
    if d["kind"] == "grow":
        return data + b"\x11" * d["n"]
    if d["kind"] == "empty":
        return b""
    return data[:k] + bytes([data[k] ^ 0x41]) + data[k + 1:]


def target(op, name):
    base = name.rsplit(".", 1)[0]
    return {"file": W + "/o/out.srs", "dir": W + "/o/" + base + ".srs",
            "cwd": "/sim/" + base + ".srs", "d": W + "/o/Sample.srs",
            "dd": W + "/o/rel.srs", "ddd": W + "/rel/" + base + ".srs",
            "nodir": W + "/none/" + base + ".srs"}[op["out"]]


def readable(sim, disk, m, path, srs_data, checked, big):
    """the SRS lists and, with the movie at hand, rebuilds the sample"""
    fs = sim.fs
    keep = sim.op
    tree = fs.tree(W)
    fs.put("/sim/v/x.srs", srs_data)
    fs.put("/sim/v/main" + m.main_ext, m.main)
    why = media.check_srs(srs_data, m, resample.APPNAME, big=big,
                          checked=checked)
    if why is None:
        sim.op = -2
        r = cli(sim, srs.main, ["/sim/v/x.srs", "-l"])
        want = ["Sample Name: " + m.name,
                "Sample CRC : %08X" % m.crc, "App    : " + resample.APPNAME]
        if not (r.kind == "exit" and not r.value) or any(
                w not in r.out for w in want):
            why = "listing it: %r %s%s" % (r, r.out[-300:], r.err[-300:])
    if why is None:
        sim.op = -2
        r = cli(sim, srs.main, ["/sim/v/x.srs", "/sim/v/main" + m.main_ext,
                                "-o", "/sim/v/r"])
        if fs.get("/sim/v/r/" + m.name) != m.sample:
            why = "rebuilding from it: %r %s%s" % (
                r, r.out[-300:], r.err[-300:])
    for p in list(fs.tree("/sim/v")):
        fs.rm(p)
    sim.op = keep
    return why


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    m = media.build(scn["media"])
    wrong = media.build(other(scn["media"]))
    vs, probes = [], {}

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    base = {S + m.name: m.sample, W + "/o/keep.txt": b"keep"}
    olds = {}
    if scn["old"]:
        for op in scn["ops"]:
            if op["out"] != "nodir":
                olds[target(op, m.name)] = OLD
    wrote = False
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            disk = dict(base)
            disk.update(olds)
            data = m.sample
            if op["damage"]:
                data = damaged(data, op["damage"])
                disk[S + m.name] = data
            argv = [S + m.name]
            chk = op["check"]
            if chk == "right":
                argv += ["-c", put_main(disk, scn, m, op["main"])]
            elif chk == "wrong":
                argv += ["-c", put_main(disk, scn, wrong, op["main"])]
            elif chk == "otherkind":
                k = "avi" if m.spec["kind"] != "avi" else "mp4"
                om = media.build(media.plan(random.Random(5), k))
                argv += ["-c", put_main(disk, scn, om, op["main"])]
            elif chk == "missing":
                argv += ["-c", M + "none" + m.main_ext]
            out = target(op, m.name)
            if op["out"] == "file":
                argv += ["-o", out]
            elif op["out"] == "nodir":
                argv += ["-o", W + "/none"]
            elif op["out"] not in ("cwd", "ddd"):
                argv += ["-o", W + "/o"]
            if op["out"] in ("d", "dd", "ddd"):
                argv.append("--" + op["out"])
            text = "x\n" + op["answer"][-1] + "\n"
            if op["answer"] == "-y":
                argv.append("-y")
            if op["big"]:
                argv.append("-b")
            if op["info"]:
                argv.append("-i")
            for p in fs.tree():
                fs.rm(p)
            for p, b in disk.items():
                fs.put(p, b)
            media.install_fpcalc(fs, op["fpcalc"])
            disk.update({p: fs.get(p) for p in fs.tree("/sim/bin")})
            sim.op = i - 1
            before = disk.get(out)
            decline = before is not None and op["answer"] == "ask-n"
            fn = srs.main
            if op["noexit"]:
                def fn():
                    return srs.main(None, True)
            r = cli(sim, fn, argv, stdin_text=text, sched=False)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            where = "op %d %s (%s)%s" % (i, " ".join(argv), r, " after " + (
                ", ".join("%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
            ) if fired else "")
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            said = "Successfully created SRS file" in r.out
            ok = said and (r.kind == "ok" if op["noexit"] else
                           r.kind == "exit" and not r.value)
            if said and not ok and r.kind not in ("kbint", "crash"):
                vs.append(violation("success-and-failure", where))
                break
            if not ok and r.kind in ("ok", "exit") and not r.value \
                    and not op["info"] and "Operation aborted" not in \
                    r.out + r.err and not decline:
                vs.append(violation("silent-exit", where + r.out[-300:]))
                break
            music = m.spec["kind"] in ("flac", "mp3")
            want = None      # unknown
            if op["info"] or op["out"] == "nodir":
                want = False
            elif chk == "missing":
                want = False
            elif chk == "otherkind" and m.spec["kind"] != "stream":
                want = False
            elif decline:
                want = False
            elif music and op["fpcalc"] == "missing":
                want = False
            elif music and op["fpcalc"] == "error":
                want = False
            elif op["damage"] and op["damage"]["kind"] == "empty":
                want = False
            elif not op["damage"] and op["fpcalc"] != "tagged":
                if chk in (None, "right"):
                    want = True
                elif chk == "wrong" and all(
                        len(t) > 20 for t in m.tracks.values()):
                    want = False
            if not hard and want is not None and ok != want:
                vs.append(violation("wrong-outcome", "%s: expected %s\n%s%s%s"
                                    % (where, "success" if want else
                                       "failure", r.out[-300:], r.err[-400:],
                                       r.tb[-800:]), "wrong-outcome " +
                                    m.spec["kind"]))
                break
            now = fs.get(out)
            if ok and want is False:
                vs.append(violation("success-from-bad-input", where))
                break

            def full(b):
                if b is None:
                    return "missing"
                if op["damage"] or (chk == "wrong"):
                    import zlib
                    if media.file_payload(
                            resample.APPNAME, m.name, len(data),
                            zlib.crc32(data) & 0xFFFFFFFF) not in b:
                        return "no (or a wrong) record of size or checksum"
                    return None
                return readable(sim, disk, m, out, b, chk == "right",
                                op["big"])
            if ok:
                why = full(now)
                if why:
                    vs.append(violation("bad-srs", "%s: %s" % (where, why),
                                        "bad-srs " + m.spec["kind"]))
                    break
                probe("created " + m.spec["kind"])
                if hard:
                    probe("created_despite_fault")
                disk[out] = now
                olds[out] = now
                wrote = True
            elif now != before:
                late = now is not None and not op["info"] and not decline \
                    and r.kind in ("kbint", "crash") and full(now) is None
                if not late:
                    vs.append(violation(
                        "failure-changed-target", "%s: was %s, now %s" % (
                            where, before and len(before),
                            now is not None and len(now))))
                    break
                disk[out] = now
            else:
                probe("declined" if decline else "failed")
            tree = fs.tree()
            noise = sim.denied
            extra = [p for p in tree if p not in disk and p not in noise]
            if extra and r.kind != "crash":
                vs.append(violation("litter", "%s: left %s" % (where, extra)))
                break
            lost = [p for p in disk if tree.get(p) != disk[p]]
            if lost:
                vs.append(violation("user-file-changed", "%s: %s" % (
                    where, lost)))
                break
            if r.kind == "crash":
                bad = [p for p in extra if not os.path.basename(p).startswith(
                    os.path.basename(out) + "-") and not p.startswith(
                    "/sim/tmp/")]
                if bad:
                    vs.append(violation("litter", "%s: crash left %s" % (
                        where, bad)))
                    break
    return result(sim, vs, nontrivial=wrote or bool(sim.fired), probes=probes)
