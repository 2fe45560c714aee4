"""C09: reading through RAR volumes equals reading the packed file."""
import os
import random
import struct

from sim import core, fixtures as F
from sim.common import STATE, W, result, violation
from checks import c05

import rescene
from rescene import rarstream, osohash, rar as rrar, utility, main as rmain

STATE.add(rescene, rarstream, osohash, rrar, utility, rmain)

BUDGET = {"quick": (1100, 2, 110), "thorough": (40000, 4, 2400)}
KINDS = ("EIO", "EACCES", "EMFILE", "SHORT", "KBINT")
SITE_WEIGHTS = {"read": 3, "open": 2}
RULE = ("A run opens a packed file through its volumes and performs a history "
        "of 1-25 seek/read/tell/hash calls next to a byte-string model, with "
        "volumes missing, cut or disappearing in between and 0-3 I/O faults; "
        "non-trivial when data was read or a fault fired.")
REAL = ["rescene.rarstream.RarStream", "rescene.osohash",
        "rescene.rar.RarReader", "rescene.utility.next_archive",
        "io.BufferedReader"]
STUB = ["file system (in memory, fault injecting)", "clock"]
DIR = W + "/v/"


def plan(rng, tier):
    s = c05.plan_set(rng, 0, 1)
    s["dir"] = ""
    if rng.random() < .12:      # many volumes: .r99 -> .s00, part100
        s["volsize"] = max(1, -(-sum(s["sizes"]) // rng.randint(95, 120)))
    if rng.random() < .15:
        s["zeropart"] = True
    if rng.random() < .15 and max(s["sizes"]) < 65536:
        s["sizes"][0] = 65536 + rng.choice([0, 1, 7, 65536, 5000])
        if s["volsize"]:
            s["volsize"] = max(1, sum(s["sizes"]) // rng.randint(1, 9))
    rs = c05.build(s)
    name = rng.choice(rs.order)
    size = len(rs.files[name])
    cuts, p = [0], 0
    for _, _, n in rs.locs[name]:
        p += n
        cuts.append(p)
    ops = []

    def off():
        k = rng.random()
        if k < .5:
            return rng.choice(cuts) + rng.choice([-2, -1, 0, 0, 1, 2])
        if k < .9:
            return rng.randint(0, size + 1)
        return size + rng.choice([-1, 0, 1, 100000])
    ev = None
    for _ in range(rng.choice([1, 3, 6, 12, 25])):
        k = rng.random()
        if k < .30:
            o = max(0, off())
            wh = rng.choice([0, 0, 0, 2])
            ops.append(["seek", o if wh == 0 else o - size, wh])
        elif k < .40:
            ops.append(["seekcur", off()])
        elif k < .45:
            ops.append(["seek", -1 - rng.randint(0, 3), 0])
        elif k < .52:
            ops.append(["tell"])
        elif k < .58:
            ops.append(["length"])
        elif k < .66:
            ops.append(["readall", rng.choice([None, -1])])
        elif k < .70:
            ops.append(["oso"])
        elif k < .74:
            ops.append(["reopen", rng.choice(rs.order)])
        elif k < .77 and ev is None:
            ev = [rng.choice(["rm", "cut", "cutdata"]),
                  rng.randrange(len(rs.names)), rng.random()]
            ops.append(ev)
        else:
            ops.append(["read", rng.choice([0, 1, 2, 7, 100, size, size + 5,
                                            rng.randint(0, size + 1)])])
    pre = [rng.choice(["rm", "cut"]), rng.randrange(len(rs.names)),
           rng.random()] if rng.random() < .15 else None
    if pre or ev:       # the size of the file must be known to tell
        s["usize"] = None
    return {"set": s, "name": name, "sep": rng.choice(["\\", "/"]),
            "noname": rng.random() < .15, "ops": ops, "faults": [],
            "middle": rng.random() < .25,
            "pre": pre, "upper": rng.random() < .1,
            "knobs": {"bufsize": rng.choice([1, 16, 512, 8192, 65536])}}


def shrink(scn):
    s = scn["set"]
    for k, v in (("rr", None), ("comment", False), ("padding", 0),
                 ("dirs", []), ("large", False), ("rarext", False),
                 ("sub", ""), ("zeropart", False), ("solid", False), ("usize", None), ("crc0", False)):
        if s.get(k) not in (v, None):
            s2 = dict(s, **{k: v})
            rs = c05.build(s2)
            if scn["name"] in rs.order and all(
                    o[0] != "reopen" or o[1] in rs.order
                    for o in scn["ops"]):
                yield dict(scn, set=s2)
    for k in ("pre", "middle", "noname", "upper"):
        if scn[k]:
            yield dict(scn, **{k: None})


def oso_model(data):
    if len(data) < 65536:
        return None
    h = len(data)
    for part in (data[:65536], data[-65536:]):
        for (x,) in struct.iter_unpack("<Q", part):
            h += x
    return "%016x" % (h & 0xFFFFFFFFFFFFFFFF), len(data)


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    rs = c05.build(scn["set"])
    # an empty part in front of the next volume's data
    up = (lambda n: n.upper()) if scn["upper"] and scn["set"]["style"] in (
        "part", "part2", "num") and False else (lambda n: n)
    for n in rs.names:
        fs.put(DIR + up(n), rs.vols[n])
    fs.put(DIR + "unrelated.r00", b"x" * 50)
    vs, probes = [], {}
    dirty = {}      # volumes that are not as they should be

    def probe(k):
        probes[k] = probes.get(k, 0) + 1

    def harm(kind, i, at):
        n = rs.names[i]
        if kind == "rm":
            fs.rm(DIR + n)
        else:
            k = int(at * len(rs.vols[n]))
            if kind == "cutdata":
                k = None
                for name in rs.order:
                    for v, off, size in rs.locs[name]:
                        if v == n and size:
                            k = off + int(at * size)
                if k is None:
                    return
            fs.put(DIR + n, rs.vols[n][:k])
        dirty[n] = kind
        sim.record("harm %s %s" % (kind, n))
    if scn["pre"]:
        harm(*scn["pre"])
    st = {"s": None, "name": scn["name"], "pos": 0}

    def affected():
        return any(v in dirty for v, _, _ in rs.locs[st["name"]])

    def open_():
        if st["s"] is not None:
            st["s"].close()
        st["s"] = None
        name = st["name"]
        first = rs.locs[name][0][0] if scn["middle"] else rs.first
        nm = name.replace("\\", scn["sep"])
        if scn["noname"] and name == rs.order[0] and not scn["middle"]:
            nm = None
        st["s"] = rarstream.RarStream(DIR + first, nm,
                                      middle=scn["middle"])

    def ensure():
        if st["s"] is None:
            open_()
            st["s"].seek(st["pos"])
        return st["s"]
    with core.running(sim):
        STATE.restore()
        for i, op in enumerate([["open"]] + scn["ops"]):
            sim.op = i - 1
            k = op[0]
            data = rs.files[st["name"]]
            pos = st["pos"]
            want_exc = False
            exp = None
            if k in ("rm", "cut", "cutdata"):
                if not affected():
                    harm(*op)
                continue
            if k == "open":
                def body():
                    open_()
                    return st["s"].tell()
                exp, newpos = 0, 0
            elif k == "reopen":
                if scn["noname"]:
                    continue
                st["name"], data = op[1], rs.files[op[1]]

                def body():
                    open_()
                    return st["s"].tell()
                exp, newpos = 0, 0
            elif k in ("seek", "seekcur"):
                off, wh = (op[1], op[2]) if k == "seek" else (
                    op[1] - pos, 1)
                newpos = off + (0, pos, len(data))[wh]
                want_exc = newpos < 0
                exp = newpos
                if want_exc:
                    newpos = pos

                def body():
                    return ensure().seek(off, wh)
            elif k == "tell":
                exp, newpos = pos, pos

                def body():
                    return ensure().tell()
            elif k == "length":
                exp, newpos = len(data), pos

                def body():
                    return ensure().length()
            elif k in ("read", "readall"):
                n = op[1]
                exp = data[pos:] if n is None or n < 0 else data[pos:pos + n]
                newpos = pos + len(exp)

                def body():
                    s = ensure()
                    return s.read() if n is None else s.read(n)
            else:
                if scn["noname"] and st["name"] != rs.order[0]:
                    continue
                exp = oso_model(data)
                want_exc = exp is None
                newpos = pos

                def body():
                    name = st["name"]
                    if scn["middle"]:
                        return osohash.osohash_from(
                            DIR + rs.locs[name][0][0], name, True)
                    return osohash.osohash_from(DIR + rs.first, name)
            r = sim.call(body)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            where = "op %d %s at %d (%s)%s%s" % (
                i, op, pos, r, " after " + ", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                if fired else "", " damaged volumes: %s" % dirty
                if dirty else "")
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            if r.kind == "ok":
                if want_exc:
                    vs.append(violation("invalid-call-accepted", where))
                    break
                if r.value != exp:
                    if isinstance(exp, bytes):
                        where += " got %d bytes, expected %d; %s" % (
                            len(r.value), len(exp), r.value[:20].hex())
                    else:
                        where += " expected %r" % (exp,)
                    vs.append(violation(
                        "wrong-%s" % k if not dirty else
                        "damaged-volume-unnoticed", where))
                    break
                st["pos"] = newpos
                probe("ok_" + k)
            else:
                if not want_exc and not hard and not dirty:
                    vs.append(violation("unexpected-error",
                                        where + "\n" + r.tb))
                    break
                probe("failed")
                # a failing call must not leave a stream that lies about
                # where it is: go on from the position it reports
                if st["s"] is not None and k in ("read", "readall"):
                    t = st["s"].tell()
                    if not pos <= t <= len(data):
                        vs.append(violation("position-after-error", "%s: "
                                            "tell() is %d" % (where, t)))
                        break
                    st["pos"] = t
                if k in ("open", "reopen"):
                    st["s"] = None
                    st["pos"] = 0
        if st["s"] is not None:
            st["s"].close()
    if fs.tree(DIR) != {DIR + n: b for n, b in list(rs.vols.items()) + [
            ("unrelated.r00", b"x" * 50)]} and not dirty:
        vs.append(violation("volumes-changed", ""))
    return result(sim, vs, probes=probes)
