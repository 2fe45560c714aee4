"""C20: results do not depend on what the process did before."""
import copy
import json
import os
import pickle
import random
import re
import struct
import sys
import traceback

from sim import core, fixtures as F, media, proc, rarexe
from sim.common import W, result, violation
from checks import c05, c15
from checks.c04 import plan_main, put_main, other

import rescene
import resample
from rescene import main as rmain, utility, rar as rrar, rarstream, osohash
from resample import main as smain, srs, fpcalc

BUDGET = {"quick": (150, 4, 100), "thorough": (9000, 12, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "KBINT", "EBUSY", "ENOMEM",
         "DIES")
SITE_WEIGHTS = {"write": 2, "creat": 2, "open": 2, "spawn": 3}
RULE = ("A run is a history of 2-7 library calls in one process on inputs "
        "that share names, sizes and paths but differ in content (good, "
        "damaged or incomplete, in the same or in another folder), with 0-3 "
        "faults or interrupts in some calls; every call without a fault is "
        "compared (files, outcome, printed text and reported messages) with "
        "the same call in a fresh forked process; non-trivial when two or "
        "more calls were compared.")
REAL = ["rescene.main (create, single volume, info, details, extract, store, "
        "remove, rename, merge, reconstruct incl. compressed)",
        "resample.srs main(no_exit=True) (create, list, rebuild)",
        "rescene.osohash", "rescene.rarstream", "io.Buffered*"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdin/stdout",
        "rar executables (model)", "fpcalc program (stub process)"]
STATE_MEASURE = "distinct (history of calls, outcomes)"
V = "/sim/v"
FILEOPS = ["create", "create", "createcomp", "single", "info", "details",
           "hash", "extract", "store", "remove", "rename", "merge", "recon",
           "recon", "oso", "stream"]
COMPOPS = ["reconc"]
SRSOPS = ["srs", "srs", "rebuild", "rebuild", "srslist"]


def plan_op(rng, pool):
    do = rng.choice(pool)
    op = {"do": do, "seed": rng.getrandbits(30), "bad": rng.random() < .2,
          "opt": rng.randrange(8)}
    if do in SRSOPS:
        op["media"] = media.plan(rng)
        op["main"] = plan_main(rng)
    elif do in COMPOPS:
        op["comp"] = c15.plan(rng, "quick")
        op["comp"]["faults"] = []
        for f in op["comp"]["files"]:
            f["n"] = min(f["n"], 15000)
        op["dir"] = rng.random() < .85
    else:
        s = c05.plan_set(rng, 0, 1)
        s.update(base="rel", dir="", sub="", ext=".bin")
        if rng.random() < .6:
            s["style"] = "old"
        op["set"] = s
        op["stored"] = {n: rng.choice([0, 1, 300]) for n in c05.STORED
                        if rng.random() < .6}
        op["renamed"] = rng.random() < .4
    return op


def twin(rng, op):
    """a call on inputs that only differ in their content, at the same place
    or in another folder (the earlier inputs stay where they are)"""
    op = copy.deepcopy(op)
    seed = rng.getrandbits(30)
    if "set" in op:
        op["set"]["seed"] = seed
    elif "media" in op:
        op["media"]["seed"] = seed
    else:
        for f in op["comp"]["files"] + (op["comp"].get("second") or {}).get(
                "files", []):
            f["seed"] ^= seed
    op["bad"] = rng.random() < .1
    op["root"] = rng.choice([W, V, V])
    if rng.random() < .3 and "set" in op:
        op["do"] = rng.choice(FILEOPS)
    return op


def plan(rng, tier):
    pool = rng.choice([FILEOPS, FILEOPS + SRSOPS + COMPOPS, COMPOPS,
                       SRSOPS, FILEOPS + COMPOPS * 6, SRSOPS + FILEOPS])
    ops = []
    for _ in range(rng.choice([2, 2, 3, 4, 5, 7])):
        k = rng.random()
        if ops and k < .15:      # the very same again
            ops.append(dict(rng.choice(ops)))
        elif ops and k < .5:
            ops.append(twin(rng, rng.choice(ops)))
        else:
            ops.append(plan_op(rng, pool))
    return {"ops": ops, "faults": [],
            "knobs": {"bufsize": rng.choice([512, 8192])}}


def shrink(scn):
    for i, o in enumerate(scn["ops"]):
        for k, v in (("bad", False), ("opt", 0), ("main", None),
                     ("renamed", False), ("root", W), ("stored", {})):
            if o.get(k, v) != v:
                oo = list(scn["ops"])
                oo[i] = dict(o, **{k: v})
                yield dict(scn, ops=oo)
        if "comp" in o:
            for c in c15.shrink(o["comp"]):
                oo = list(scn["ops"])
                oo[i] = dict(o, comp=c)
                yield dict(scn, ops=oo)


SHRINK_OPS = 2


def plain(v, depth=0):
    """a comparable picture of a returned value"""
    if depth > 6:
        return "..."
    if isinstance(v, dict):
        return [[plain(k, depth + 1), plain(x, depth + 1)]
                for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(repr(x) for x in v)
    if isinstance(v, (str, bytes, int, float, bool, type(None))):
        return repr(v)
    if hasattr(v, "__dict__"):
        return [type(v).__name__, plain(
            {k: x for k, x in sorted(vars(v).items())
             if not k.startswith("_")}, depth + 1)]
    return type(v).__name__


def norm(s):
    # where fpcalc is, is looked up and told once
    s = re.sub(r"(?m)^/sim/bin/fpcalc\n", "", s)
    s = re.sub(r" at 0x[0-9a-f]+", "", s)
    s = re.sub(r"(SRR-|retag-|tmp)[a-z0-9_]{8}", r"\1X", s)
    return s


def prepare(op, fs):
    """put the inputs of the call -> function that does it"""
    do, opt = op["do"], op["opt"]
    R = op.get("root", W)
    SRR, IN, OUT, RARS, TMP = (R + "/rel.srr", R + "/in", R + "/out",
                               R + "/rars", R + "/t")
    rng = random.Random(op["seed"])
    proc.HANDLERS.clear()
    fs.mkdirs(OUT)
    if do in SRSOPS:
        m = media.build(op["media"])
        media.install_fpcalc(fs, "ok")
        disk = {}
        main = R + put_main(disk, None, m, op["main"])[len(W):]
        disk = {R + p[len(W):]: b for p, b in disk.items()}
        sample = R + "/s/sample" + os.path.splitext(m.name)[1]
        disk[sample] = m.sample
        if op["bad"]:
            d = m.sample
            k = rng.randrange(len(d) or 1)
            disk[sample] = d[:k] if opt & 1 else \
                d[:k] + bytes([d[k] ^ 9]) + d[k + 1:] if d else d
        for p, b in disk.items():
            fs.put(p, b)
        argv = [sample, "-o", OUT + "/x.srs", "-y"]
        if opt & 2:
            argv += ["-c", main]
        if do == "srs":
            return lambda: srs.main(argv, True)

        def both():
            try:
                srs.main(argv, True)
            except ValueError as e:
                print(e)
            if do == "srslist":
                return srs.main([OUT + "/x.srs", "-l"], True)
            return srs.main([OUT + "/x.srs", main, "-o", OUT + "/r", "-y"],
                            True)
        return both
    if do in COMPOPS:
        scn = op["comp"]
        srr, vols, disk, hints, auto, ents = c15.build(scn)
        disk = {R + p[len(W):]: b for p, b in disk.items()}
        disk[SRR] = srr
        for e in scn["exes"]:
            disk[RARS + "/" + c15.exename(e)] = rarexe.exe(
                e["fam"], e["mt"], e["kind"])
        if op["bad"]:
            p = sorted(disk)[rng.randrange(len(disk))]
            del disk[p]
        for p, b in disk.items():
            fs.put(p, b)
        fs.mkdirs(RARS)
        fs.mkdirs(TMP)
        proc.HANDLERS[lambda n: "_rar" in n] = lambda a, p: rarexe.run(
            fs, a, p.dies)
        mt = None
        if scn["mt"]:
            mt = rmain.RarMtSettings()
            mt.mt_set = scn["mt"].get("set") or []
            mt.mt_min = scn["mt"].get("min", 0)
            mt.mt_max = scn["mt"].get("max", 0)
        if opt & 1 and not hints:
            return lambda: rmain.reconstruct(
                SRR, IN, OUT, auto_locate_renamed=auto,
                rar_executable_dir=RARS if op["dir"] else None,
                rar_mt=mt)
        return lambda: rmain.reconstruct(
            SRR, IN, OUT, True, dict(hints), False, auto, False,
            RARS if op["dir"] else None,
            TMP if scn["tmp"] else None, True, "", mt)
    rs = c05.build(op["set"])
    if op["bad"] and do not in ("info", "details", "hash"):
        n = rng.choice(rs.names)
        k = rng.randrange(3)
        b = rs.vols[n]
        if k == 0 and len(rs.names) > 1:
            del rs.vols[n]
        elif k == 1:
            rs.vols[n] = b[:rng.randrange(len(b))]
        else:
            i = rng.randrange(len(b))
            rs.vols[n] = b[:i] + bytes([b[i] ^ 5]) + b[i + 1:]
    if do in ("create", "createcomp", "single", "oso", "stream"):
        full = c05.build(op["set"])
        for n, b in rs.vols.items():
            fs.put(IN + "/" + n, b)
        fs.put(IN + "/rel.sfv", full.sfv())
        for n, k in op["stored"].items():
            fs.put(IN + "/" + n, b"s" * k)
        first = IN + "/" + rs.names[0]
        if do == "single":
            return lambda: rmain.create_srr_single_volume(SRR, first)
        if do == "oso":
            return lambda: osohash.osohash_from(first, rs.order[0]) \
                if hasattr(osohash, "osohash_from") \
                else osohash.compute_hash(first)
        if do == "stream":
            def read():
                s = rarstream.RarStream(
                    first, None if opt & 1 else rs.order[-1])
                try:
                    return [s.length(), s.read(), s.list_files()]
                finally:
                    s.close()
            return read
        src = [IN + "/rel.sfv"] if opt & 1 else [first]
        if opt & 2:
            return lambda: rmain.create_srr(SRR, src)
        return lambda: rmain.create_srr(
            SRR, src, IN, ["*.nfo", "Sample/*.srs", "Proof/p.jpg"],
            bool(opt & 4), do == "createcomp", bool(opt & 1))
    out = F.srr_header("pyReScene Test")
    for n, k in sorted(op["stored"].items()):
        out += F.srr_stored(n, F.rb(rng, k))
    for n in rs.names:
        if n in rs.vols:
            out += F.srr_of_rar(n, rs.vols[n])
    if op["bad"] and opt & 4:
        out = out[:rng.randrange(len(out))]
    fs.put(SRR, out)
    fs.put(R + "/add/new.nfo", F.rb(rng, 20))
    for n in rs.order:
        p = n.replace("\\", "/")
        if op.get("renamed"):
            p = "z/%d/ren%s" % (opt & 1, os.path.basename(p))
        fs.put(IN + "/" + p, rs.files[n])
    name = sorted(op["stored"])[0] if op["stored"] else "rel.nfo"
    if do == "info":
        return lambda: rmain.info(SRR)
    if do == "details":
        return lambda: rmain.print_details(SRR)
    if do == "hash":
        return lambda: rmain.content_hash(SRR)
    if do == "extract":
        return lambda: rmain.extract_files(
            SRR, OUT, bool(opt & 1), name if opt & 2 else "")
    if do == "store":
        return lambda: rmain.add_stored_files(
            SRR, [R + "/add/new.nfo"], R if opt & 1 else "", bool(opt & 2))
    if do == "remove":
        return lambda: rmain.remove_stored_files(SRR, [name])
    if do == "rename":
        return lambda: rmain.rename_stored_file(SRR, name, "x/%s" % name)
    if do == "merge":
        fs.put(R + "/rel2.srr", F.srr_header("other") + F.srr_stored(
            "z.nfo", b"z"))
        return lambda: rmain.merge_srrs([SRR, R + "/rel2.srr"],
                                        R + "/m.srr")
    assert do == "recon"
    if opt & 4:
        return lambda: rmain.reconstruct(SRR, IN, OUT)
    return lambda: rmain.reconstruct(
        SRR, IN, OUT, bool(opt & 1),
        {rs.order[0]: "gone.bin"} if op["bad"] and opt & 1 else {},
        bool(opt & 2))


class Listener(object):
    def __init__(self):
        self.got = []

    def __call__(self, e):
        self.got.append((e.code, sorted(
            (k, repr(v)) for k, v in vars(e).items() if k != "code")))


def one(op, before, faults, knobs, listener):
    """-> (sim, comparable result)"""
    sim = core.Sim(faults, knobs)
    listener.got = []
    with core.running(sim):
        sim.op = -1
        for o in before:
            prepare(o, sim.fs)
        fn = prepare(op, sim.fs)
        random.seed(4242)
        r = sim.call(fn)
    tree = {p: (None if b is None else bytes(b))
            for p, b in sim.fs.tree("/sim", True).items()}
    return sim, r, {
        "outcome": r.kind + " " + (
            type(r.exc).__name__ + ": " + norm(str(r.exc))
            if r.exc is not None else norm(json.dumps(plain(r.value)))),
        "text": norm(r.out + "\n--\n" + r.err),
        "messages": norm(repr(listener.got)),
        "files": tree}


def fresh(op, before, knobs):
    """the same call in a process that did nothing before"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            lst = Listener()
            rmain.subscribe(lst)
            data = pickle.dumps(one(op, before, [], knobs, lst)[2])
            data = struct.pack("<Q", len(data)) + data
            while data:
                data = data[os.write(wr, data):]
            code = 0
        except BaseException:
            traceback.print_exc(file=sys.__stderr__)
        finally:
            os._exit(code)
    os.close(wr)
    buf = b""
    while True:
        b = os.read(rd, 1 << 20)
        if not b:
            break
        buf += b
    os.close(rd)
    os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) - 8 != struct.unpack("<Q", buf[:8])[0]:
        raise RuntimeError("the fresh process died")
    return pickle.loads(buf[8:])


def run(scn):
    ops = scn["ops"]
    # every call has its own time, and the inputs of an earlier call in the
    # other folder are still there
    knobs = [dict(scn.get("knobs") or {}, t0=3600 * i)
             for i in range(len(ops))]
    before = [[o for o in ops[:i] if o.get("root", W) != op.get("root", W)][
        -1:] for i, op in enumerate(ops)]
    base = [fresh(op, before[i], knobs[i]) for i, op in enumerate(ops)]
    lst = Listener()
    rmain.subscribe(lst)
    vs = []
    points, fired, events, results, log = [], [], [], [], []
    compared = 0
    steps = 0
    total = 0.0
    probes = {}
    for i, op in enumerate(scn["ops"]):
        sim, r, got = one(op, before[i], [
            dict(f, op=0) for f in scn["faults"] if f["op"] == i],
            knobs[i], lst)
        points += [(i, n, s, p) for _, n, s, p in sim.points]
        fired += [(k, s, i, n, p) for k, s, _, n, p in sim.fired]
        events += ["--- call %d" % i] + sim.events
        results += sim.results
        log.append(sim.digest())
        steps += sim.fs.steps
        total += sim.time - core.EPOCH - knobs[i]["t0"]
        if r.kind == "steps":
            vs.append(violation("no-termination", "call %d %s" % (
                i, op["do"])))
            break
        if sim.fired:
            probes["faulted"] = probes.get("faulted", 0) + 1
            continue
        compared += 1
        probes[op["do"]] = probes.get(op["do"], 0) + 1
        if got["outcome"].startswith("ok"):
            probes["succeeded"] = probes.get("succeeded", 0) + 1
        want = base[i]
        diff = [k for k in want if want[k] != got[k]]
        if diff:
            k = diff[0]
            if k == "files":
                a, b = want[k], got[k]
                d = [(p, a.get(p, "absent") if a.get(p) is None else
                      len(a[p]), b.get(p, "absent") if b.get(p) is None
                      else len(b[p])) for p in sorted(set(a) | set(b))
                     if p not in a or p not in b or a[p] != b[p]]
                detail = repr(d[:5])
            else:
                detail = "fresh process: %s\n... here: %s" % (
                    want[k][-600:], got[k][-600:])
            vs.append(violation(
                "depends-on-history", "call %d (%s) after %s: %s differ\n%s"
                % (i, op["do"], [o["do"] for o in scn["ops"][:i]],
                   ", ".join(diff), detail)))
            break
    whole = sim
    whole.points, whole.fired, whole.events = points, fired, events
    whole.results = results
    whole.fs.steps = steps
    whole.time = core.EPOCH + total
    for d in log:
        whole.record(d)
    st = repr([(o["do"], r.kind) for o, r in zip(scn["ops"], results)])
    return result(whole, vs, nontrivial=compared > 1, probes=probes,
                  state=st)
