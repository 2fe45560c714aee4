"""C07: a sample is rebuilt bit for bit or the failure is reported."""
import os
import random
import struct

from sim import core, fixtures as F, media
from sim.common import STATE, W, cli, result, violation
from checks.c04 import put_main, plan_main, other

import rescene
import resample
from rescene import main as rmain, utility, rarstream, rar as rrar
from resample import main as smain, srs, fpcalc

STATE.add(rescene, resample, rmain, utility, rarstream, rrar, smain, srs,
          fpcalc)

BUDGET = {"quick": (480, 6, 110), "thorough": (9000, 22, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "SHORT", "KBINT", "EBUSY",
         "CRASH", "TORN")
SITE_WEIGHTS = {"write": 3, "rename": 3, "unlink": 2, "open": 2, "creat": 2}
RULE = ("A run creates an SRS from a synthetic sample of any container type "
        "(optionally checked against the movie, optionally with too short "
        "signatures as old versions made them) and then rebuilds the sample "
        "1-2 times from a main file that is intact, damaged at any offset, "
        "cut, grown, another movie, another format or in a RAR set (also "
        "with missing or damaged volumes), with any options and 0-3 faults; "
        "non-trivial when a rebuild wrote a result or a fault fired.")
REAL = ["resample.srs command line (rebuild)", "resample.main",
        "resample.ebml/riff/mov/asf/flac/mp3", "rescene.rarstream",
        "rescene.rar", "rescene.utility", "io.Buffered*"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdin/stdout",
        "fpcalc program (stub process)"]
SRS = W + "/srs/x.srs"
M = W + "/main/"
OLD = b"what the user had here before" * 2


def plan_damage(rng):
    return {"kind": rng.choice(["flip", "flip", "flip", "trunc", "grow",
                                "zero", "insert", "delete"]),
            "at": rng.random(), "n": rng.choice([1, 1, 5, 300])}


def plan_rebuild(rng):
    return {
        "main": plan_main(rng),
        "which": rng.choice(["right"] * 10 + ["wrong", "otherkind", "cut"]),
        "damage": plan_damage(rng) if rng.random() < .35 else None,
        "vol": rng.choice([None] * 8 + ["gone", "damaged"]),
        "outdir": rng.choice(["r", "r", "r", "new/deep", "cwd"]),
        "old": rng.random() < .3, "m": rng.random() < .2,
        "k": rng.random() < .15,
        "answer": rng.choice(["-y", "-y", "ask-y", "ask-n"]),
        "noexit": rng.random() < .15}


def plan(rng, tier):
    spec = media.plan(rng, tier=tier)
    return {"media": spec, "faults": [],
            "create": {"check": rng.random() < .4, "big": rng.random() < .15,
                       "cut": spec["kind"] == "mkv" and bool(
                           spec.get("ascii")) and rng.random() < .75,
                       "main": plan_main(rng)},
            "ops": [plan_rebuild(rng) for _ in range(rng.choice([1, 1, 2]))],
            "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536])}}


def shrink(scn):
    for s in media.shrink(scn["media"]):
        yield dict(scn, media=s)
    for k, v in (("check", False), ("big", False), ("cut", False),
                 ("main", None)):
        if scn["create"][k] != v:
            yield dict(scn, create=dict(scn["create"], **{k: v}))
    for i, o in enumerate(scn["ops"]):
        for k, v in (("damage", None), ("main", None), ("which", "right"),
                     ("vol", None), ("outdir", "r"), ("old", False),
                     ("m", False), ("k", False), ("answer", "-y"),
                     ("noexit", False)):
            if o.get(k, v) != v:
                oo = list(scn["ops"])
                oo[i] = dict(o, **{k: v})
                yield dict(scn, ops=oo)


def damage(data, d):
    n = len(data)
    k = min(int(d["at"] * n), max(0, n - 1))
    c = d["n"]
    if not n:
        return data
    if d["kind"] == "flip":
        return data[:k] + bytes([data[k] ^ 0x21]) + data[k + 1:]
    if d["kind"] == "trunc":
        return data[:k]
    if d["kind"] == "grow":
        return data + b"\x17" * c
    if d["kind"] == "zero":
        return data[:k] + b"\0" * len(data[k:k + c]) + data[k + c:]
    if d["kind"] == "insert":
        return data[:k] + b"\x5a" * c + data[k:]
    return data[:k] + data[k + c:]


def make_srs(sim, m, create):
    """the SRS of the sample, made by the unfaulted program; -> bytes"""
    fs = sim.fs
    disk = {W + "/s/" + m.name: m.sample}
    argv = [W + "/s/" + m.name, "-o", SRS, "-y"]
    if create["check"]:
        argv += ["-c", put_main(disk, None, m, create["main"], "main0")]
    if create["big"]:
        argv.append("-b")
    for p, d in disk.items():
        fs.put(p, d)
    fs.mkdirs(W + "/srs")
    media.install_fpcalc(fs, "ok")
    keep = sim.op
    sim.op = -2

    def make():
        # (cli() puts the modules back in their first state afterwards)
        if create["cut"]:    # what versions without this search stored
            smain.isascii = lambda b: False
            smain.STREAM_VS_SUBTITLE = 200
        return srs.main()
    r = cli(sim, make, argv, sched=False)
    sim.op = keep
    data = fs.get(SRS)
    for p in list(fs.tree()):
        fs.rm(p)
    if data is None:
        raise core.Broken("setup: no SRS: %r %s %s %s" % (
            r, r.out[-500:], r.err[-500:], r.tb))
    return data


def main_bytes(m, op, scn):
    """-> Media-like to put on disk, pristine"""
    mm = media.Media()
    mm.main_ext = m.main_ext
    mm.main = m.main
    if op["which"] == "wrong":
        mm.main = media.build(other(scn["media"])).main
    elif op["which"] == "cut":
        mm.main = m.sample       # only a part of the movie
    elif op["which"] == "otherkind":
        k = "avi" if m.spec["kind"] != "avi" else "mp4"
        o = media.build(media.plan(random.Random(5), k))
        mm.main, mm.main_ext = o.main, o.main_ext
    if op["damage"]:
        mm.main = damage(mm.main, op["damage"])
    return mm


def rebuild_argv(op, path):
    out = {"r": W + "/r", "new/deep": W + "/new/deep", "cwd": "/sim"}[
        op["outdir"]]
    argv = [SRS, path]
    if op["outdir"] != "cwd":
        argv += ["-o", out]
    if op["m"]:
        argv.append("-m")
    if op["k"]:
        argv.append("-k")
    if op["answer"] == "-y":
        argv.append("-y")
    return out, argv, "z\n" + op["answer"][-1] + "\n"


def outcome(r, op):
    """-> (claims success, reports failure)"""
    said = "Successfully rebuilt sample" in r.out
    good = r.kind == "ok" if op["noexit"] else r.kind == "exit" and not r.value
    return said, good


def cut_off(m):
    """is the stored signature the start of a text that others have too?"""
    d = m.tracks[1]
    return len(d) > 200 and not any(b > 127 for b in d[:256][-64:])


def guessable(m):
    """A signature cut off inside text that every key frame has: is the true
    place of the video one of those the program promises to try?  (the
    nearest before, the nearest after and all between the other tracks)"""
    if m.spec["strip"] != [0, 0]:
        return False
    video = m.tracks[1]
    sig = video[:256]
    cands, last, p = [], -1000, m.main.find(sig)
    while p >= 0:
        if p - last > 60:     # (the text repeats itself)
            cands.append(p)
        last = p
        p = m.main.find(sig, p + 1)
    true = m.main.find(video[:820])
    if true not in cands:
        return False
    if true == cands[0]:
        return True
    good, ends = [], []
    for no, d in m.tracks.items():
        if no == 1:
            continue
        good.append(m.main.find(d[:8]) if d else 0)
        if d:
            ends.append(m.main.find(d[-8:]))
        if good[-1] < 0 or ends and ends[-1] < 0:
            return False
    if not ends:       # the search ends with the length of the video
        if true - cands[0] > .8 * len(video):
            return False
    elif true > max(ends):
        return False
    if not good:
        return True
    lo, hi = min(good), max(good)
    return (lo < true < hi
            or true == max([c for c in cands if c < lo] or [-1])
            or true == min([c for c in cands if c > hi] or [-1]))


def setknobs(scn):
    if scn["create"]["cut"]:
        smain.STREAM_VS_SUBTITLE = 200


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    m = media.build(scn["media"])
    vs, probes = [], {}
    wrote = False

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    with core.running(sim):
        data = make_srs(sim, m, scn["create"])
        for i, op in enumerate(scn["ops"]):
            for p in fs.tree():
                fs.rm(p)
            disk = {SRS: data}
            mm = main_bytes(m, op, scn)
            path = put_main(disk, None, mm, op["main"])
            vols = sorted(p for p in disk if p.startswith(M))
            if op["vol"] and op["main"]:
                v = vols[int(op["main"]["seed"] % len(vols))]
                if op["vol"] == "gone":
                    del disk[v]
                else:
                    disk[v] = damage(disk[v], {
                        "kind": "flip", "at": (op["main"]["seed"] % 97) / 97.,
                        "n": 1})
            out, argv, text = rebuild_argv(op, path)
            target = out + "/" + m.name
            if op["old"] and op["outdir"] != "new/deep":
                disk[target] = OLD
            elif op["outdir"] == "r":
                disk[out + "/keep"] = b"k"
            for p, b in disk.items():
                fs.put(p, b)
            setknobs(scn)
            fn = srs.main
            if op["noexit"]:
                def fn():
                    return srs.main(None, True)
            sim.op = i - 1

            def go(fn=fn):
                setknobs(scn)
                return fn()
            r = cli(sim, go, argv, stdin_text=text, sched=False)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            said, good = outcome(r, op)
            now = fs.get(target)
            before = disk.get(target)
            decline = before is not None and op["answer"] == "ask-n"
            where = "%s op %d %s (%s)%s" % (
                m.spec["kind"], i, " ".join(argv), r, " after " + (", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                ) if fired else "")
            tail = "\n" + r.out[-300:] + r.err[-300:] + r.tb[-700:]
            kind = m.spec["kind"]
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            if said and now != m.sample:
                vs.append(violation("false-success", "%s: the result %s" % (
                    where, "is missing" if now is None else "differs")))
                break
            if good and not said:
                vs.append(violation("silent-exit", where + tail))
                break
            if said and not good and r.kind not in ("crash", "kbint"):
                vs.append(violation("success-and-failure", where + tail))
                break
            if said:
                probe("rebuilt " + kind)
                if op["main"]:
                    probe("rebuilt from RARs")
                if scn["create"]["cut"]:
                    probe("rebuilt cut signature")
                if hard:
                    probe("rebuilt despite fault")
                if op["damage"]:
                    probe("rebuilt, damage elsewhere")
                wrote = True
            else:
                probe("declined" if decline else "failed")
                late = r.kind in ("crash", "kbint") and now == m.sample \
                    and not decline
                kept = op["k"] and not decline and now is not None
                if now != before and not late and not kept:
                    vs.append(violation(
                        "failure-left-result", "%s: %s bytes where %s" % (
                            where, now is not None and len(now),
                            before and len(before))))
                    break
                if now != before:
                    wrote = True
            ok = (op["which"] == "right" and not op["damage"]
                  and not (op["vol"] and op["main"]) and not decline
                  and (not scn["create"]["cut"] or not cut_off(m)
                       or guessable(m)))
            if ok and scn["create"]["cut"]:
                probe("must rebuild, cut signature")
            if ok and not hard and not said:
                vs.append(violation("not-rebuilt", where + tail,
                                    "not-rebuilt " + kind))
                break
            if r.kind == "exc" and not (
                    op["noexit"] and isinstance(r.exc, ValueError)):
                vs.append(violation("unexpected-error", where + tail))
                break
    return result(sim, vs, nontrivial=wrote or bool(sim.fired), probes=probes)
