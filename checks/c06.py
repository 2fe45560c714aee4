"""C06: a wrong or damaged source never yields a silent bad rebuild."""
import os
import random

from sim import core, fixtures as F
from sim.common import W, result, violation
from checks import c05
from checks.c05 import (IN, OUT, SRR, build, build_srr, lay_out, reconstruct,
                        targets)

BUDGET = {"quick": (1600, 1, 110), "thorough": (60000, 2, 2400)}
KINDS = ()
RULE = ("A run is one reconstruction where one source file is damaged "
        "(flipped bytes, truncated, grown, swapped, emptied) before or while "
        "it is being read, plus intact control runs; non-trivial when the "
        "damage was in place.")
REAL = c05.REAL
STUB = c05.STUB + ["a second process changing a source file at a chosen "
                   "system call"]


def plan(rng, tier):
    scn = c05.plan(rng, tier)
    op = dict(scn["ops"][0], answer="-y", pre=None, clear=True)
    scn["ops"] = [op]
    inner = [n for i, s in enumerate(scn["sets"])
             for n, k in zip(build(s, i).order, s["sizes"]) if k > 0]
    if not inner:
        scn["damage"] = None
        return scn
    k = rng.choice(["flip", "flip", "flip", "flip2", "trunc", "grow", "swap",
                    "zero", "none"])
    if k == "none":
        scn["damage"] = None
        return scn
    scn["damage"] = {"file": rng.choice(inner), "kind": k,
                     "at": rng.random(), "at2": rng.random(),
                     "bit": rng.randrange(8),
                     # None: before the command; else at this system call
                     "when": rng.random() if rng.random() < .35 else None}
    return scn


def vary(rng, scn, base):
    """the same scenario with other damage positions"""
    d = scn.get("damage")
    if not d:
        return None
    return dict(scn, damage=dict(d, at=rng.random(), at2=rng.random(),
                                 when=rng.random() if rng.random() < .5
                                 else None))


def shrink(scn):
    for c in c05.shrink(scn):
        if scn["damage"] is None or any(
                scn["damage"]["file"] in build(s, i).files
                for i, s in enumerate(c["sets"])):
            yield c
    if scn["damage"] and scn["damage"]["when"] is not None:
        yield dict(scn, damage=dict(scn["damage"], when=None))


def damage(data, d):
    n = len(data)
    k = d["kind"] if n else "grow"
    at = max(0, min(n - 1, int(d["at"] * n)))
    if k in ("flip", "flip2"):
        b = bytearray(data)
        b[at] ^= 1 << d["bit"]
        if k == "flip2":
            b[min(n - 1, int(d["at2"] * n))] ^= 0x10
        return bytes(b)
    if k == "trunc":
        return data[:at]
    if k == "grow":
        return data + b"\0" * [1 + at % 50, 1 + at % 50, 512, n or 1, 65536,
                               131072][d["bit"] % 6]
    if k == "swap":
        return F.rb(random.Random(n), n)
    return b"\0" * n


def execute(scn):
    sim = core.Sim((), scn.get("knobs"))
    fs = sim.fs
    sets = [(s, build(s, i)) for i, s in enumerate(scn["sets"])]
    srr, vols, stored = build_srr(scn, sets)
    fs.put(SRR, srr)
    disk, where_, hints, auto = lay_out(fs, scn, sets)
    fs.mkdirs(OUT)
    d = scn["damage"]
    op = scn["ops"][0]
    tv, ts = targets(op, vols, stored)
    info = {"applied": False, "calls": 0, "mid": False}
    orig = new = path = None
    if d:
        path = where_[d["file"]]
        orig = disk[path]
        new = damage(orig, d)
        if new == orig:
            new = damage(orig, dict(d, kind="flip"))
        if d["when"] is None:
            fs.put(path, new)
            info["applied"] = True
            sim.fired.append(("DAMAGE-" + d["kind"], "before", 0, 0, path))
    return (sim, sets, tv, ts, hints, auto, d, op, path, orig, new, info,
            disk)


def same_size(disk, path, orig):
    ext = os.path.splitext(path)[1]
    return any(p != path and b == orig and p.endswith(ext)
               for p, b in disk.items())


def run(scn):
    d = scn["damage"]
    at = None
    if d and d["when"] is not None:
        # calls of an undisturbed run decide where "when" falls
        sim, _, _, _, hints, auto, _, op = execute(dict(scn, damage=None))[:8]
        with core.running(sim):
            reconstruct(sim, op, hints, auto)
        at = 1 + int(d["when"] * sim.n)
    sim, sets, tv, ts, hints, auto, d, op, path, orig, new, info, disk = \
        execute(scn)
    fs = sim.fs
    vs = []
    probes = {}
    reads = []

    def hook(site, p, extra):
        info["calls"] += 1
        if at is not None and info["calls"] == at:
            fs.lookup(path).data[:] = new
            info["applied"] = info["mid"] = True
            sim.fired.append(("DAMAGE-" + d["kind"], "during", 0, 0, path))
            sim.record("other process changes %s" % path)
    sim.on_sys = hook
    with core.running(sim):
        sim.op = -1
        r = reconstruct(sim, op, hints, auto)
    text = r.out + r.err
    now = fs.tree(OUT)
    where = "%s damage %s (%s)" % (op["via"], d and (
        d["file"], d["kind"], d["when"] and "at call %d" % at), r)
    if op["via"] == "cli":
        ok = r.kind == "exit" and r.value in (None, 0)
    else:
        ok = r.kind == "ok"
        text += "\n".join(str(e.message) for e in rsrr_events())
    bad = [p for p, b in tv.items() if now.get(p) != b]
    told = "CRC mismatch" in text
    used = d and any(now_uses(sets, op, tv, d["file"], p) for p in tv)
    if r.kind == "steps":
        vs.append(violation("no-termination", where))
    elif d is None or not info["applied"]:
        if not ok or told or bad:
            vs.append(violation("false-alarm", "%s: ok=%s told=%s bad=%s %s"
                                % (where, ok, told, bad, text[-300:])))
    elif len(new) != len(orig) and not info["mid"] and not [
            s for s, rs in sets if s.get("usize") and d["file"] in rs.files]:
        # refused, unless no wanted volume needs the file or another file
        # of the right size with the same data was found in its place
        if ok and used and (bad or not same_size(disk, path, orig)):
            vs.append(violation("size-mismatch-accepted", where))
        if not used and not ok:
            vs.append(violation("false-alarm", where + text[-300:]))
        if bad and ok:
            vs.append(violation("silent-bad-volume", where + str(bad)))
    else:
        if ok and bad and not told and not op["nocrc"]:
            vs.append(violation("silent-bad-volume", "%s: %s\n%s" % (
                where, bad, text[-300:])))
        if ok and told and not bad and not info["mid"] and \
                op["part"] is None:
            vs.append(violation("false-alarm", where + text[-300:]))
        if op["nocrc"] and told:
            vs.append(violation("switch-ignored", where))
        if ok and bad and not op["nocrc"] and not info["mid"]:
            # the message names the affected volume or file
            for p in bad:
                last = [f for f, v in last_in(sets, op, p)]
                if ("RAR volume: " + p) not in text and not any(
                        ("in file: " + f) in text for f in last):
                    vs.append(violation("affected-volume-not-named",
                                        "%s: %s\n%s" % (where, p,
                                                        text[-300:])))
                    break
    if info["applied"]:
        probes["%s_%s" % (d["kind"], "during" if info["mid"] else "before")] \
            = 1
        probes["told" if told else "failed" if not ok else "exact"
               if not bad else "unchecked"] = 1
    else:
        probes["intact"] = 1
    return result(sim, vs, nontrivial=info["applied"], probes=probes)


def rsrr_events():
    from rescene import srr as rsrr
    return rsrr.o.events


def volname(s, op, n):
    d = s["dir"] + "/" if s["dir"] and op["paths"] else ""
    return OUT + "/" + d + n


def now_uses(sets, op, tv, inner, p):
    for s, rs in sets:
        for v, off, size in rs.locs.get(inner, ()):
            if volname(s, op, v) == p:
                return True
    return False


def last_in(sets, op, p):
    """files whose last part lies in volume p"""
    for s, rs in sets:
        for f, locs in rs.locs.items():
            if volname(s, op, locs[-1][0]) == p:
                yield f, p
