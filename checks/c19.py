"""C19: retagging a music release never loses the user's tracks."""
import os
import random

from sim import core, fixtures as F, media
from sim.common import STATE, W, REPO, cli, result, violation
from checks.c04 import other
from checks import c07
from checks.c07 import make_srs, damage, plan_damage

import sys
sys.path.append(os.path.join(REPO, "bin"))
import retag
import rescene
import resample
from rescene import main as rmain, utility, rarstream, rar as rrar
from resample import main as smain, srs

STATE.add(retag, rescene, rmain, utility, rarstream, rrar, resample, smain,
          srs)

BUDGET = {"quick": (420, 8, 110), "thorough": (8000, 26, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "SHORT", "KBINT", "EBUSY",
         "CRASH", "TORN")
SITE_WEIGHTS = {"write": 3, "rename": 5, "unlink": 5, "open": 2, "creat": 3,
                "read": 2}
RULE = ("A run is a music release: an SRR with 1-4 SRS files (music, "
        "sometimes a video sample or damaged ones) in any folders plus other "
        "stored files, the user's tracks (right, retagged, wrong, damaged, "
        "missing, other case, in the root or in subfolders) and unrelated "
        "files, and 1-2 retag commands (in place or to another folder, -y, "
        "-n or answers) with 0-3 I/O faults, interrupts or process deaths; "
        "non-trivial when a track was restored or a fault fired.")
REAL = ["bin/retag.py command line", "resample.srs", "resample.main",
        "resample.flac/mp3", "rescene.main.extract_files", "rescene.rar",
        "io.Buffered*"]
STUB = c07.STUB
IN = W + "/in"
NAMES = ["01-intro", "02-So.ng", "03-s\xe4ng", "04-a b"]


def plan(rng, tier):
    tracks = []
    n = rng.choice([1, 2, 2, 3, 4])
    for i in range(n):
        kind = rng.choice(["mp3", "flac"] if rng.random() < .88
                          else ["avi", "stream"])
        spec = media.plan(rng, kind=kind, tier=tier)
        spec["base"] = NAMES[i]
        if i and rng.random() < .12:
            spec["base"] = NAMES[0]
        if kind in ("mp3", "flac") and spec["size"] > 70000:
            spec["size"] = 3000
        tracks.append({
            "media": spec, "dir": rng.choice(["", "", "CD1", "CD2", "a/b"]),
            "have": rng.choice(["ret", "ret", "ret", "ret", "same", "wrong",
                                "none", "damaged"]),
            "where": rng.choice(["dir", "dir", "root", "case", "dircase"]),
            "damage": plan_damage(rng),
            "srsdamage": plan_damage(rng) if rng.random() < .1 else None,
            "old": rng.choice(["none", "none", "old", "same"]),
            "srsthere": rng.random() < .12})
    return {"tracks": tracks, "faults": [],
            "stored": rng.sample(["rel.nfo", "rel.sfv", "CD1/rel.nfo",
                                  "proof/rel.jpg", "empty.m3u"],
                                 rng.choice([0, 1, 2, 3])),
            "have_stored": rng.random() < .4,
            "ops": [{"inplace": rng.random() < .55,
                     "cwd": rng.random() < .15,
                     "opt": rng.choice(["-y", "-y", "-y", "-n", "ask-y",
                                        "ask-n"]),
                     "slash": rng.random() < .2}
                    for _ in range(rng.choice([1, 1, 2]))],
            "order": rng.choice(["first", "last", "mixed"]),
            "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536])}}


def shrink(scn):
    for i, t in enumerate(scn["tracks"]):
        if len(scn["tracks"]) > 1:
            yield dict(scn, tracks=scn["tracks"][:i] + scn["tracks"][i + 1:])
    for i, t in enumerate(scn["tracks"]):
        def new(**k):
            l = list(scn["tracks"])
            l[i] = dict(t, **k)
            return dict(scn, tracks=l)
        for k, v in (("dir", ""), ("have", "ret"), ("where", "dir"),
                     ("srsdamage", None), ("old", "none"),
                     ("srsthere", False)):
            if t[k] != v:
                yield new(**{k: v})
        for s in media.shrink(t["media"]):
            if s["base"] == t["media"]["base"]:
                yield new(media=s)
    for i in range(len(scn["stored"])):
        yield dict(scn, stored=scn["stored"][:i] + scn["stored"][i + 1:])
    if scn["have_stored"]:
        yield dict(scn, have_stored=False)
    for i, o in enumerate(scn["ops"]):
        for k, v in (("inplace", True), ("cwd", False), ("opt", "-y"),
                     ("slash", False)):
            if o[k] != v:
                l = list(scn["ops"])
                l[i] = dict(o, **{k: v})
                yield dict(scn, ops=l)


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    vs, probes = [], {}
    touched = False

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    with core.running(sim):
        items, ms = [], []
        seen = set()
        for t in scn["tracks"]:
            m = media.build(t["media"])
            base = m.spec["base"]
            key = (t["dir"], m.name)
            name = (t["dir"] + "/" if t["dir"] else "") + base + ".srs"
            if name in seen:
                continue
            seen.add(name)
            data = make_srs(sim, m, {"check": False, "big": False,
                                     "cut": False, "main": None})
            if t["srsdamage"]:
                data = damage(data, t["srsdamage"])
            items.append((name, data))
            ms.append((t, m, name))
        stored = [(n, b"" if n.startswith("empty") else
                   ("stored %s\n" % n).encode() * 30) for n in scn["stored"]]
        if scn["order"] == "first":
            items = items + stored
        elif scn["order"] == "last":
            items = stored + items[::-1]
        else:
            items = [x for p in zip(items, stored) for x in p] + \
                items[len(stored):] + stored[len(items):]
        srr = F.srr_header() + b"".join(F.srr_stored(n, d)
                                        for n, d in items)
        disk = {W + "/rel.srr": srr, IN + "/keep.txt": b"keep me",
                W + "/out/CD1/keep.txt": b"keep me too",
                "/sim/keep.txt": b"and me"}
        for (t, m, name) in ms:
            if m.spec["kind"] not in ("mp3", "flac"):
                continue
            d, b = t["dir"], m.name
            if t["where"] == "root":
                d = ""
            elif t["where"] == "dircase":
                d = d.upper() if d != d.upper() else d.lower()
            elif t["where"] == "case":
                b = b.upper()
            path = IN + "/" + (d + "/" if d else "") + b
            if t["have"] == "ret":
                disk[path] = m.main
            elif t["have"] == "same":
                disk[path] = m.sample
            elif t["have"] == "wrong":
                disk[path] = media.build(other(t["media"])).main
            elif t["have"] == "damaged":
                disk[path] = damage(m.main, t["damage"])
            t_out = W + "/out/" + (t["dir"] + "/" if t["dir"] else "") \
                + m.name
            if t["old"] == "old":
                disk[t_out] = b"what the user had here"
            elif t["old"] == "same":
                disk[t_out] = m.sample
            if t["srsthere"]:
                for r in (IN, W + "/out"):
                    disk[r + "/" + name] = b"the user's own file"
        if scn["have_stored"]:
            for n, d in stored:
                disk[IN + "/" + n] = b"an older " + d
                disk[W + "/out/" + n] = b"an older " + d
        for p in list(fs.tree()):
            fs.rm(p)
        for p, b in disk.items():
            fs.put(p, b)
        media.install_fpcalc(fs, "ok")
        disk.update({p: fs.get(p) for p in fs.tree("/sim/bin")})
        sim.op = -2
        for i, op in enumerate(scn["ops"]):
            out = IN if op["inplace"] else W + "/out"
            s = "/" if op["slash"] else ""
            argv = [W + "/rel.srr", "-i", IN + s, "-o", out + s]
            if op["cwd"]:
                argv = [W + "/rel.srr"]
                if not op["inplace"]:
                    argv += ["-o", "../out" + s]
            if not op["opt"].startswith("ask"):
                argv.append(op["opt"])
            ans = "n" if op["opt"] == "ask-n" else "y"
            if op["opt"] == "-n":
                ans = "n"       # asked for tracks only
            text = "z\n" + (ans + "\n") * 60
            sim.op = i - 1
            dirs0 = set(fs.tree(dirs=True))
            def go(op=op):
                if op["cwd"]:
                    fs.cwd = IN
                return retag.main()
            r = cli(sim, go, argv, stdin_text=text, sched=False)
            fs.cwd = "/sim"
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            where = "op %d %s (%s)%s" % (
                i, " ".join(argv), r, " after " + (", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                ) if fired else "")
            tail = "\n" + r.out[-600:] + r.err[-300:] + r.tb[-900:]
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            dead = r.kind in ("crash", "kbint")
            good = r.kind in ("ok", "exit") and not r.value
            decline = ans == "n"
            tree = fs.tree()
            want = {}        # target -> the original
            for t, m, name in ms:
                if m.spec["kind"] in ("mp3", "flac"):
                    want[out + "/" + os.path.dirname(name)
                         + ("/" if "/" in name else "") + m.name] = (
                             t, m, name)
            sfiles = {out + "/" + n: d for n, d in stored}
            originals = set(m.sample for _, m, _ in ms)
            evil = any(t["srsdamage"] for t, _, _ in ms)
            bad = None
            # 1. nothing the user has is lost
            for p, b in disk.items():
                now = tree.get(p)
                if now == b:
                    continue
                if p in want and now == want[p][1].sample and not decline:
                    touched = True
                    probe("replaced")
                    continue
                if p in sfiles and not decline and (now == sfiles[p] or hard):
                    continue
                bad = ("user-file-changed", "%s: was %d bytes, now %s" % (
                    p, len(b), now is not None and len(now)))
                break
            # 2. new files are the requested results
            if not bad:
                for p, now in sorted(tree.items()):
                    if p in disk or p in sim.denied:
                        continue
                    if p in want and now == want[p][1].sample:
                        touched = True
                        probe("restored")
                        continue
                    if p in sfiles and (now == sfiles[p] or hard):
                        continue
                    if evil and now in originals:
                        continue
                    if r.kind == "crash" or any(
                            p.startswith(d + "/") for d in sim.unlisted):
                        continue    # its folder could not be cleaned
                    bad = ("litter", "%s, %d bytes" % (p, len(now)))
                    break
            if not bad and not hard:
                left = [d for d in set(fs.tree(dirs=True)) - dirs0
                        if d.startswith("/sim/tmp/")]
                if left:
                    bad = ("litter", "folders %s" % left)
            # 3. the outcome is reported
            absent = [p for p in want if tree.get(p) != want[p][1].sample]
            sabsent = [p for p in sfiles if tree.get(p) != sfiles[p]]
            if not bad and good and (absent or sabsent) and not decline:
                bad = ("false-success", "%s" % (absent + sabsent))
            if not bad and good and absent and decline and [
                    p for p in absent if p not in disk]:
                bad = ("false-success", "%s" % absent)
            # 4. what can be restored is
            if not bad and not hard and not decline:
                fine = [p for p in want if want[p][0]["have"] in (
                    "ret", "same") and not want[p][0]["srsdamage"]
                    and self_ok(scn, op, want[p], ms)]
                lost = [p for p in fine if p in absent]
                if lost:
                    bad = ("not-restored", "%s" % lost)
                elif sabsent:
                    bad = ("not-extracted", "%s" % sabsent)
                elif len(fine) == len(want) and not good and not evil:
                    bad = ("false-failure", "all is restored")
            if not bad and r.kind == "exc" and not hard:
                bad = ("unexpected-error", "")
            if not bad and r.kind == "exc" and not isinstance(
                    r.exc, (OSError, EOFError)):
                bad = ("unexpected-error", "")
            if bad:
                vs.append(violation(bad[0], "%s: %s%s" % (
                    bad[1], where, tail)))
                break
            probe("success" if good else "failure")
            disk = tree
    return result(sim, vs, nontrivial=touched or bool(sim.fired),
                  probes=probes)


def self_ok(scn, op, w, ms):
    """is the user's track found: names are unambiguous"""
    t, m, name = w
    if t["where"] == "dircase" and t["dir"] and (
            [x for x in ms if x[0] is not t] or scn["stored"]
            or t["srsthere"]):
        return False        # both spellings of the folder can exist
    if [x for x in ms if x[1].spec["base"] == m.spec["base"] and
            x[2] != name]:
        return False
    return True
