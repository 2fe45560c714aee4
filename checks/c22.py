"""C22: rerar writes exactly the volumes it is asked for."""
import os
import random
import struct
import sys
import warnings
import zlib

from sim import core, fixtures as F
from sim.common import STATE, W, REPO, cli, result, violation

sys.path.insert(0, os.path.join(REPO, "rerar"))
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import rerar
    import rar as rerar_rar
sys.path.remove(os.path.join(REPO, "rerar"))

STATE.add(rerar, rerar_rar)

BUDGET = {"quick": (700, 8, 80), "thorough": (9000, 24, 1800)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "SHORT", "KBINT", "CRASH",
         "TORN")
SITE_WEIGHTS = {"write": 4, "creat": 4, "read": 2, "open": 3, "mkdir": 4}
RULE = ("A run is 1-3 uses of rerar in one folder: a set of RAR volumes "
        "(RAR 2 and 3, recovery records, both ways of naming, lock, dates "
        "with fractions, attributes, end blocks) is made again after a "
        "reference volume (good or damaged) or from options, with the right, "
        "an other or no source file, where earlier results and the reference "
        "itself may be in the way, with 0-3 I/O faults, interrupts or "
        "process deaths; non-trivial when a volume was written or a fault "
        "fired.")
REAL = ["rerar/rerar.py", "rerar/rar.py", "io.Buffered*"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdout"]
ASSUMPTIONS = ["the volumes a failing run was writing itself may stay behind "
               "incomplete: their folder and files are new"]
STATE_MEASURE = "tuples of set options, way of use and outcome"
RUN, ORIG = W + "/run", W + "/orig"
FULL, NONUM, BLANK = 14, 6, 0


def plan(rng, tier):
    v = rng.choice([3, 3, 3, 2])
    rr = rng.random() < .5
    nv = rng.choice([1, 2, 3, 3, 5, 9, 11, 12] + (
        [101, 102, 120] if rng.random() < .3 else []))
    per = rng.randint(1, 60) if nv > 20 else rng.choice(
        [rng.randint(1, 60), rng.randint(100, 1500), rng.randint(500, 2000),
         65536 if rng.random() < .1 else 512])
    if nv < 4 and rng.random() < .06:
        per = rng.choice([65536, 65537, 70000, 131100])  # blocks of a copy
    if nv > 20:
        rr = False
    if rr and v == 2:
        per = max(per, 600)     # as many recovery sectors in each of them
    last = rng.choice([per, per, rng.randint(1, per), 1])
    s = {"version": v, "rr": rr, "per": per, "nv": nv, "last": last,
         "naming": rng.choice([2, 3]) if nv < 100 else 3,
         "lock": rng.random() < .2, "unicode": rng.random() < .2,
         "dict": rng.choice([None, None, 64, 128, 256, 1024, 4096]),
         "unix": rng.random() < .3,
         "attr": rng.choice([None, None, "normal", "rw-rw-rw-"]),
         "end": FULL if v == 2 else rng.choice([FULL, FULL, NONUM, BLANK]),
         "time": [rng.randint(1981, 2099), rng.randint(1, 12),
                  rng.randint(1, 28), rng.randrange(24), rng.randrange(60),
                  rng.randrange(60)],
         "frac": rng.choice([0, 0, rng.randrange(10000000),
                             rng.randrange(10000000), 2560000, 6553600]),
         "name": rng.choice(["movie.avi", "grp-movie.mkv", "a", "m.part1.avi",
                             "\xe9t\xe9.avi", "x" * 130 + ".avi"]),
         "base": rng.choice(["rel", "rel.a-b", "grp-rel.720p"]),
         "seed": rng.getrandbits(30)}
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append({
            "how": rng.choice(["ref", "ref", "ref", "options", "options"]),
            "where": rng.choice(["orig", "orig", "here", "result"]),
            "overwrite": rng.random() < .2, "dry": rng.random() < .08,
            "lenient": rng.random() < .08,
            "nl": rng.choice([None, None, "lf", "crcrlf"]),
            "head": rng.choice([None, None, "; made by me",
                                "; a\n; b\n"]),
            "file": rng.choice(["good"] * 7 + ["other", "longer", "gone",
                                               "dir"]),
            "damage": rng.choice([None] * 8 + ["flip", "cut", "junk",
                                               "empty"]),
            "at": rng.random(), "refvol": rng.choice([0] * 9 + [1])})
    return {"set": s, "ops": ops, "faults": [],
            "knobs": {"bufsize": rng.choice([512, 8192, 65536])}}


def shrink(scn):
    s = scn["set"]
    for k, v in (("rr", False), ("lock", False), ("unicode", False),
                 ("dict", None), ("unix", False), ("attr", None),
                 ("frac", 0), ("nv", 2), ("nv", 1), ("name", "movie.avi"),
                 ("base", "rel")):
        if s[k] != v and not (k == "nv" and s[k] < v):
            yield dict(scn, set=dict(s, **{k: v}))
    for i, o in enumerate(scn["ops"]):
        for k, v in (("overwrite", False), ("lenient", False), ("nl", None),
                     ("head", None), ("file", "good"), ("damage", None),
                     ("dry", False)):
            if o[k] != v:
                ops = list(scn["ops"])
                ops[i] = dict(o, **{k: v})
                yield dict(scn, ops=ops)


# -- what a set of volumes looks like -----------------------------------------

class Set(object):
    def __init__(self, s, content=None, volmax=None, nodigits=None):
        self.s = s
        v = s["version"]
        nm = s["name"].encode("latin-1")
        if s["unicode"]:
            nm += utf_field(s["name"])
        y, mo, d, h, mi, sec = s["time"]
        dos = (y - 1980) << 25 | mo << 21 | d << 16 | h << 11 | mi << 5 | \
            sec >> 1
        ext = b""
        if s["frac"] or sec & 1:
            fr = struct.pack("<I", s["frac"])[:3]
            while fr[:1] == b"\0":      # the low bytes can be left out
                fr = fr[1:]
            ext = struct.pack("<H", (8 | (sec & 1) << 2 | len(fr)) << 12) + fr
        rdict = s["dict"] or (256 if v == 2 else 4096)
        fl = {64: 0, 128: 1, 256: 2, 512: 3, 1024: 4, 2048: 5,
              4096: 6}[rdict] << 5
        attr = {None: 0x20, "normal": 0x80, "rw-rw-rw-": 0x81b6}[s["attr"]]
        host = 3 if s["unix"] else 2
        if content is None:
            rng = random.Random(s["seed"])
            content = F.rb(rng, s["per"] * (s["nv"] - 1) + s["last"])
        self.content = content
        mainfl = 1 | (0x40 if s["rr"] else 0) | (4 if s["lock"] else 0) | (
            0x10 if s["naming"] == 3 else 0)

        def volume(i, data, last, rrmax):
            b = F.MARKER + F.arch_head(mainfl | (0x100 if v == 3 and i == 0
                                                 else 0))
            crc = zlib.crc32(content if last else data) & 0xFFFFFFFF
            b += F.file_head(nm, len(data), len(content), crc,
                             fl | (1 if i else 0) | (0 if last else 2) |
                             (0x200 if s["unicode"] else 0), attr=attr,
                             host=host, dostime=dos, ext=ext)
            b += data
            if s["rr"]:
                if last or v == 2:
                    n = rr_count(v, len(b), volmax)
                else:
                    n = rrmax
                b += recovery(v, b, n, host)
            if v == 3:
                end = s["end"]
                b += F.end_block(
                    last, zlib.crc32(b) & 0xFFFFFFFF if end & 2 else None,
                    i if end & 8 else None, bool(end & 4))
            return b
        per = s["per"]
        if volmax is None:
            # the size a volume with that many bytes of the file has
            volmax = 10 ** 6
            rrm = rr_count(v, volmax, volmax)
            while True:
                n = len(volume(0, b"\0" * per, False, rrm))
                if n == volmax:
                    break
                volmax = n
                m = rr_count(v, volmax, volmax)
                if m == rrm and len(volume(0, b"\0" * per, False, m)) == n:
                    break
                rrm = m
        self.volmax = volmax
        rrm = rr_count(v, volmax, volmax)
        self.vols, self.names = {}, []
        nvol = max(1, -(-len(content) // per))
        self.nvol = nvol
        digits = len(str(nvol)) if nvol < 2 else 1 + len(str(nvol - 1)) - 1
        for i in range(nvol):
            if s["naming"] == 3:
                n = "%s.part%0*d.rar" % (s["base"], digits, i + 1)
            else:
                n = s["base"] + (".rar" if i == 0 else ".r%02d" % (i - 1))
            self.names.append(n)
            self.vols[n] = volume(i, content[i * per:(i + 1) * per],
                                  i == nvol - 1, rrm)

    def sfv(self, op):
        nl = {None: "\r\n", "lf": "\n", "crcrlf": "\r\r\n"}[op["nl"]]
        out = op["head"] or ""
        if out and out[-1] != "\n":
            out += "\n"
        out = out.replace("\n", nl)
        for n in sorted(self.names):
            out += "%s %08x%s" % (n, zlib.crc32(self.vols[n]) & 0xFFFFFFFF,
                                  nl)
        return out.encode("latin-1")


def rr_count(v, total, volmax):
    if v == 2:
        n = 2 if volmax < 50000 else 4 if volmax < 500000 else 8
        return min(n, (total + 511) // 512)
    if total < 512:
        return 1
    n = total * 6 // 512 // 1000 + 2
    return n if n < 6 else n | 1


def recovery(v, b, n, host):
    cnt, data = F.protect(b, n)
    if v == 2:
        return F.head(0x78, 0xC000, struct.pack(
            "<IBHI", len(data), 20, n, cnt) + b"Protect!") + data
    body = struct.pack("<IIBIIBBHI", len(data), len(data), host,
                       zlib.crc32(data, 0xF0000000) & 0xFFFFFFFF, 0, 29,
                       0x30, 2, 0)
    return F.head(0x7A, 0xC000, body + b"RR" + b"Protect+" + struct.pack(
        "<IQ", n, cnt)) + data


def utf_field(name):
    """all of it copied from the other name (never a single left over)"""
    out = bytearray(b"\0\1")
    ops = []
    left = len(name)
    pos = 0
    while left:
        if left == 1:
            ops.append((0, ord(name[pos])))
            left = 0
        else:
            n = min(2 + 127, left)
            ops.append((3, n - 2))
            pos += n
            left -= n
    for i in range(0, len(ops), 4):
        four = ops[i:i + 4]
        out.append(sum(o << (6 - 2 * j) for j, (o, _) in enumerate(four)))
        out += bytes(x for _, x in four)
    return bytes(out)


# -- the run ------------------------------------------------------------------

def command(s, st, op, ref):
    argv = []
    if op["how"] == "ref":
        argv += ["ref", ref]
    else:
        if s["rr"]:
            argv.append("rr")
        if s["unicode"]:
            argv.append("unicode")
        if s["lock"]:
            argv.append("lock")
        argv += ["internal", s["name"], "base", s["base"],
                 "naming%d" % s["naming"], "size", str(st.volmax), "time",
                 "%d-%02d-%02d %02d:%02d:%02d" % tuple(s["time"]) + (
                     ".%07d" % s["frac"] if s["frac"] else "")]
        if s["version"] == 2:
            argv.append("rar2")
        if s["dict"]:
            argv += ["dict", str(s["dict"])]
        if s["unix"]:
            argv.append("unix")
        if s["attr"] == "normal":
            argv.append("normalattr")
        elif s["attr"]:
            argv += ["attr", s["attr"]]
        if s["end"] == NONUM:
            argv.append("nonum")
        elif s["end"] == BLANK:
            argv.append("blankend")
    argv += ["file", W + "/" + {"good": "data.bin", "other": "other.bin",
                                "longer": "longer.bin", "gone": "gone.bin",
                                "dir": "folder"}[op["file"]]]
    if op["nl"]:
        argv.append(op["nl"])
    if op["head"]:
        argv += ["sfvhead", op["head"]]
    for k, n in (("overwrite", "overwrite"), ("dry", "dryrun"),
                 ("lenient", "lenient")):
        if op[k]:
            argv.append(n)
    return argv


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    s = scn["set"]
    st = Set(s)
    other = bytes(255 - x for x in st.content)
    longer = st.content + b"more of it" * (1 + len(st.content) // 40)
    sets = {"good": st, "dir": st, "gone": None,
            "other": Set(s, other, st.volmax),
            "longer": Set(s, longer, st.volmax)}
    fs.mkdirs(RUN)
    fs.mkdirs(ORIG + "/Rel-GRP")
    for n in st.names:
        fs.put(ORIG + "/Rel-GRP/" + n, st.vols[n])
    fs.put(W + "/data.bin", st.content)
    fs.put(W + "/other.bin", other)
    fs.put(W + "/longer.bin", longer)
    fs.put(W + "/folder/" + s["name"], st.content)
    vs, probes, states = [], {}, []
    wrote = False
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            sim.op = -2
            fs.mkdirs(RUN)
            ref, out = "", ""
            exp = sets[op["file"]]
            if op["how"] == "ref":
                first = st.names[min(op["refvol"], st.nvol - 1)]
                out = "Rel-GRP"
                d = {"orig": ORIG + "/Rel-GRP/", "here": "",
                     "result": "Rel-GRP/"}[op["where"]]
                if op["where"] == "here":
                    out = ""
                ref = d + first
                data = st.vols[first]
                if op["damage"] == "flip":
                    k = int(op["at"] * len(data))
                    data = data[:k] + bytes([data[k] ^ 1 << k % 8]) + \
                        data[k + 1:]
                elif op["damage"] == "cut":
                    k = int(op["at"] * len(data))
                    e = s["end"]
                    if s["version"] == 3 and k == len(data) - len(F.end_block(
                            True, 0 if e & 2 else None, 0 if e & 8 else None,
                            bool(e & 4))):
                        k -= 1      # that would be a good RAR 2 volume
                    data = data[:k]
                elif op["damage"]:
                    data = b"no RAR" * 40 if op["damage"] == "junk" else b""
                fs.put(os.path.join(RUN, ref), data)
            argv = command(s, st, op, ref)
            sim.op = i - 1
            before = fs.tree(W)
            dirs = set(fs.tree(W, True))

            def go():
                os.chdir(RUN)
                return rerar.main()
            r = cli(sim, go, argv, prog="rerar.py", sched=False)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            crashed = fs.crashed
            if crashed:
                sim.restart()
            now = fs.tree(W)
            where = "op %d %s (%r)%s" % (
                i, argv, r, " after " + ", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                if fired else "")
            tail = "\n" + r.out[-700:] + r.err[-700:] + r.tb[-900:]
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            good = r.kind in ("ok", "exit") and not r.value and not crashed
            base = RUN + "/" + out if out else RUN
            want = {}
            if exp:
                for n in exp.names:
                    want[base + "/" + n] = exp.vols[n]
                want[base + "/" + s["base"] + ".sfv"] = exp.sfv(op)
            changed = [p for p in sorted(before) if now.get(p) != before[p]]
            added = [p for p in sorted(now) if p not in before]
            wrote |= bool(added)
            bad = None
            inway = [p for p in want if p in before] or (
                out and base + "/" in dirs)
            # (the volume size comes from the reference: one volume with a
            # recovery record made for its size doesn't tell it)
            judge_ref = op["how"] != "ref" or (
                not (st.nvol == 1 and (s["rr"] or
                                       op["file"] == "longer")) and not op["damage"] and not (op["refvol"] and st.nvol > 1))
            if changed and not (op["overwrite"] and exp and
                                all(p in want for p in changed)):
                bad = "overwrote", changed
            elif [p for p in added if p not in want]:
                if judge_ref:
                    bad = "unexpected-file", [p for p in added
                                              if p not in want]
            elif op["dry"] and (added or changed):
                bad = "dry-run-wrote", added + changed
            elif good and op["dry"]:
                pass
            elif good and op["lenient"] and op["damage"]:
                pass
            elif good and (not exp or any(now.get(p) != b
                                          for p, b in want.items())):
                wrong = [p for p in want if now.get(p) != want[p]]
                if not exp or judge_ref or op["damage"] and not (
                        op["refvol"]):
                    bad = "false-success", "differing or missing: %s" % [
                        (p, diff(now.get(p), want[p])) for p in wrong]
            elif good and hard:
                bad = "swallowed-fault", ""
            elif not good and not hard and exp and judge_ref and (
                    not inway or op["overwrite"]) and not (
                    op["file"] == "dir" and not s["name"]):
                bad = "false-failure", ""
            elif not good and not hard and not exp and r.kind == "exc" and \
                    not isinstance(r.exc, (OSError, EOFError)) and \
                    not op["damage"]:
                bad = "unexpected-error", ""
            if bad:
                vs.append(violation(bad[0], "%s: %s%s" % (bad[1], where,
                                                          tail)))
                break
            k = "%s %s" % (op["how"], "crashed" if crashed else
                           "made" if good else "failed")
            probes[k] = probes.get(k, 0) + 1
            states.append((k, s["version"], s["rr"], s["naming"], s["end"],
                           s["unicode"], bool(s["frac"]), op["file"],
                           op["damage"], op["where"]))
            if not good:        # the user starts over
                for p in added:
                    fs.rm(p)
                for p in changed:
                    fs.put(p, before[p])
                if out and base + "/" not in dirs:
                    fs.rm(base)
    return result(sim, vs, probes=probes, nontrivial=wrote or bool(sim.fired))


def diff(a, b):
    if a is None:
        return "missing"
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "at %d of %d/%d" % (i, len(a), len(b))
    return "sizes %d/%d" % (len(a), len(b))
