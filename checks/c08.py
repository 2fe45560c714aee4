"""C08: rebuilding a sample or track never destroys existing files."""
import os
import random
import struct

from sim import core, fixtures as F, media
from sim.common import STATE, W, cli, result, violation
from checks.c04 import put_main, plan_main, other
from checks import c07
from checks.c07 import make_srs, main_bytes, plan_damage, outcome, setknobs

import resample
from resample import main as smain, srs

BUDGET = {"quick": (540, 8, 130), "thorough": (8000, 26, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "SHORT", "KBINT", "EBUSY",
         "CRASH", "TORN")
SITE_WEIGHTS = {"write": 3, "rename": 5, "unlink": 5, "open": 2, "creat": 3,
                "read": 2}
RULE = ("A run is a folder with user files, an SRS (possibly with a hostile "
        "sample name), a main file (right, damaged or wrong; plain or in "
        "RARs; a music track possibly being the target itself) and a history "
        "of 1-3 rebuilds over the same folder with any options and answers, "
        "with 0-3 I/O faults, interrupts or process deaths; the whole tree "
        "is compared after each; non-trivial when a target existed or a "
        "fault fired.")
REAL = c07.REAL
STUB = c07.STUB
D = W + "/d/"
OLD = b"what the user had here before" * 2


def plan(rng, tier):
    spec = media.plan(rng, tier=tier)
    music = spec["kind"] in ("flac", "mp3")
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append({
            "which": rng.choice(["right"] * 6 + ["wrong", "cut",
                                                 "otherkind"]),
            "damage": plan_damage(rng) if rng.random() < (
                .5 if music else .3) else None,
            "answer": rng.choice(["-y"] * 4 + ["ask-y", "ask-y", "ask-n"]),
            "m": rng.random() < .15,
            "k": rng.random() < (.6 if music else .15),
            "spell": rng.choice(["abs", "abs", "rel", "dots"]),
            "ospell": rng.choice(["abs", "abs", "rel", "dots", "cwd"]),
            "noexit": rng.random() < .2})
    return {"media": spec, "faults": [], "ops": ops,
            "create": {"check": rng.random() < .3, "big": rng.random() < .1,
                       "cut": spec["kind"] == "mkv" and bool(
                           spec.get("ascii")) and rng.random() < .5,
                       "main": None},
            "main": plan_main(rng),
            "layout": rng.choice(["apart", "self", "beside", "beside"]
                                 if music else ["apart", "apart", "apart",
                                                "together", "self",
                                                "beside"]),
            "target": rng.choice(["none", "old", "old", "same", "dir"]
                                 if rng.random() < .9 else ["none"]),
            "name": rng.choice(["plain"] * 8 + ["../", "/sim/", "d/", "..\\",
                                                "../../"]),
            "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536])}}


def shrink(scn):
    for s in media.shrink(scn["media"]):
        yield dict(scn, media=s)
    for k, v in (("check", False), ("big", False), ("cut", False)):
        if scn["create"][k] != v:
            yield dict(scn, create=dict(scn["create"], **{k: v}))
    for k, v in (("main", None), ("layout", "apart"), ("target", "none"),
                 ("name", "plain"), ("target", "old")):
        if scn[k] != v:
            yield dict(scn, **{k: v})
    for i, o in enumerate(scn["ops"]):
        for k, v in (("damage", None), ("which", "right"), ("m", False),
                     ("k", False), ("answer", "-y"), ("noexit", False),
                     ("spell", "abs"), ("ospell", "abs")):
            if o.get(k, v) != v:
                oo = list(scn["ops"])
                oo[i] = dict(o, **{k: v})
                yield dict(scn, ops=oo)


def spell(path, how, cwd="/sim"):
    """another way to write the path"""
    if how == "rel":
        return os.path.relpath(path, cwd)
    if how == "dots":
        a, b = os.path.split(path)
        return a + "/../" + os.path.basename(a) + "/./" + b
    return path


def run(scn):
    # (the bigger samples of many packets need some 600000 calls)
    sim = core.Sim(scn["faults"], dict({"max_steps": 1500000},
                                       **(scn.get("knobs") or {})))
    fs = sim.fs
    m = media.build(scn["media"])
    vs, probes = [], {}
    touched = False

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    with core.running(sim):
        data = make_srs(sim, m, scn["create"])
        name = m.name
        if scn["name"] != "plain" and len(name.encode()) == len(name) > len(
                scn["name"]) + 3:
            evil = scn["name"] + name[len(scn["name"]):]
            old = struct.pack("<H", len(name)) + name.encode()
            if data.count(old) != 1:
                raise core.Broken("the sample's name is %d times in its SRS"
                                  % data.count(old))
            data = data.replace(old, struct.pack("<H", len(name))
                                + evil.encode())
            name = evil
            probe("hostile name")
        base = os.path.basename(name)
        out = W + "/o"
        if scn["layout"] == "together":
            out = W + "/d"
        target = out + "/" + base
        SRS = (out if scn["layout"] == "together" else W + "/srs") + "/x.srs"
        disk = {SRS: data, out + "/keep.txt": b"keep me",
                target + "-old.tmp": b"not a temporary file of this run",
                W + "/keep.txt": b"keep me too",
                "/sim/" + base: b"same name elsewhere",
                W + "/" + base: b"same name above"}
        isdir = False
        if scn["target"] == "old":
            disk[target] = OLD
        elif scn["target"] == "same":
            disk[target] = m.sample
        elif scn["target"] == "dir":
            isdir = scn["layout"] != "self"
            if isdir:
                disk[target + "/file"] = b"in a folder"
        for p, b in disk.items():
            fs.put(p, b)
        media.install_fpcalc(fs, "ok")
        disk.update({p: fs.get(p) for p in fs.tree("/sim/bin")})
        for i, op in enumerate(scn["ops"]):
            mm = main_bytes(m, op, scn)
            # the main file of this operation
            for p in [p for p in disk if p.startswith(W + "/main/")]:
                fs.rm(p)
                del disk[p]
            if scn["layout"] == "self":
                if i == 0 or op["which"] != "right" or op["damage"]:
                    disk[target] = mm.main
                path = target
            elif scn["layout"] == "beside":    # in the folder of the result
                path = out + "/the movie" + mm.main_ext
                disk[path] = mm.main
            else:
                new = {}
                path = put_main(new, None, mm, scn["main"])
                disk.update(new)
            for p, b in disk.items():
                fs.put(p, b)
            osp = op.get("ospell", op["spell"])
            if scn["layout"] == "beside" and osp != "cwd":
                osp = op["spell"]
            cwd = "/sim"
            if osp == "cwd":    # no output folder given: the current one
                fs.mkdirs(out)
                cwd = out
            argv = [SRS, spell(path, op["spell"], cwd)]
            if osp != "cwd":
                argv += ["-o", spell(out, osp)]
            for o in ("m", "k"):
                if op[o]:
                    argv.append("-" + o)
            if op["answer"] == "-y":
                argv.append("-y")
            text = "x\n" + op["answer"][-1] + "\n"
            fn = srs.main
            if op["noexit"]:
                def fn():
                    return srs.main(None, True)

            def go(fn=fn):
                setknobs(scn)
                fs.cwd = cwd
                try:
                    return fn()
                finally:
                    fs.cwd = "/sim"
            sim.op = i - 1
            r = cli(sim, go, argv, stdin_text=text, sched=False)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            said, good = outcome(r, op)
            where = "%s op %d %s (%s)%s" % (
                m.spec["kind"], i, " ".join(argv), r, " after " + (", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                ) if fired else "")
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            before = disk.get(target)
            if before is not None:
                probe("target existed")
                touched = True
            decline = before is not None and op["answer"] == "ask-n"
            now = fs.get(target)
            music = m.spec["kind"] in ("flac", "mp3")
            if now != before:
                exact = now == m.sample
                if decline:
                    vs.append(violation("declined-but-changed", where))
                    break
                if exact and (said or r.kind in ("kbint", "crash")):
                    probe("replaced" if before is not None else "rebuilt")
                elif op["k"] and now is not None and not said and not (
                        music and scn["layout"] == "self") and not (
                        r.kind in ("kbint", "crash")):
                    probe("kept failure")
                elif op["k"] and r.kind in ("kbint", "crash") and \
                        now is not None and not (
                        music and scn["layout"] == "self"):
                    probe("kept failure")
                else:
                    vs.append(violation("target-destroyed", "%s: was %s, now "
                                        "%s bytes" % (
                                            where, before and len(before),
                                            now is not None and len(now))))
                    break
                disk[target] = now
            elif said and now != m.sample:
                vs.append(violation("false-success", where))
                break
            else:
                probe("unchanged")
            tree = fs.tree()
            lost = [p for p in disk if tree.get(p) != disk[p]]
            if lost:
                vs.append(violation("user-file-changed", "%s: %s" % (
                    where, lost)))
                break
            extra = [p for p in tree if p not in disk
                     and p not in sim.denied]
            mine = [p for p in extra if p.startswith(target + "-")
                    or p.startswith("/sim/tmp/")]
            bad = [p for p in extra if p not in mine]
            if bad or (mine and r.kind != "crash" and not (
                    op["k"] and music and scn["layout"] == "self")):
                vs.append(violation("litter", "%s: left %s" % (where, extra)))
                break
            for p in tree:      # a temporary file of a dead process
                if p not in disk:
                    disk[p] = tree[p]
            if r.kind == "exc" and not (op["noexit"] and isinstance(
                    r.exc, ValueError)):
                vs.append(violation("unexpected-error", where + r.tb[-900:]))
                break
    return result(sim, vs, nontrivial=touched or bool(sim.fired),
                  probes=probes)
