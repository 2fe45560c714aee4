"""C14: automatic processing leaves releases untouched, isolates failures."""
import datetime
import itertools
import logging
import os
import random
import sys
import zlib

from sim import core, fixtures as F, media, proc
from sim.common import STATE, W, REPO, cli, result, violation
from checks import c03, c05

sys.path.append(os.path.join(REPO, "bin"))
import warnings
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import pyrescene
import rescene
import resample
from rescene import (main as rmain, srr as rsrr, rar as rrar, utility,
                     rarstream, osohash, unrar)
from resample import main as smain, srs, fpcalc

STATE.add(pyrescene, rescene, rmain, rsrr, rrar, utility, rarstream, osohash,
          unrar, resample, smain, srs, fpcalc)

BUDGET = {"quick": (150, 7, 110), "thorough": (5000, 20, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "EBUSY", "SHORT", "KBINT",
         "ENOMEM", "DIES")
SITE_WEIGHTS = {"write": 2, "rename": 5, "unlink": 2, "creat": 3, "open": 2,
                "listdir": 4, "spawn": 5, "mkdir": 3, "rmdir": 2}
RULE = ("A run is a folder tree with 1-4 releases (RAR sets on 1-2 CDs with "
        "samples, vobsubs, proofs and logs; music; nfo only; some damaged or "
        "incomplete) and 1-2 runs of the automatic tool over it (recursive "
        "or by name, any of its options) with 0-3 I/O faults, failing "
        "programs or interrupts; non-trivial when an SRR was made or a fault "
        "fired.")
REAL = ["bin/pyrescene.py", "rescene.main", "rescene.rar",
        "resample.srs / resample.main", "rescene.rarstream",
        "rescene.osohash", "rescene.srr.MessageThread", "io.Buffered*"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdin/stdout",
        "OS thread scheduling (simulated)", "unrar and fpcalc (models)"]
IN, OUT, TMP = W + "/in", W + "/out", W + "/tmp"
OLD = F.srr_header("an older application") + F.srr_stored("o.nfo", b"old" * 9)
NAMES = ["Alpha.2009.DVDRip.XviD-GRP", "Beta_Song-CD-2004-GRP",
         "Alpha.2009.DVDRip.XviD-GRPX", "Ceta.S01E02.720p.x264-ABC",
         "Delta-(X01)-VLS-1996-TR"]
FIX = "Alpha.2009.%s.DVDRip.XviD-FIX"
PICS = (".jpg", "jpeg", ".png", ".bmp", ".gif")
LOGS = {"transfer.log": 1, "rushchk.log": 0, ".upchk.log": 0, ".x.log": 0,
        "eac-rip.log": 1}


class FakeDate(object):
    @staticmethod
    def now():
        import time
        return datetime.datetime.fromtimestamp(time.time(),
                                               datetime.timezone.utc)


def plan_rel(rng, i, tier):
    kind = rng.choice(["rar"] * 6 + ["music"] * 3 + ["nfo"])
    r = {"kind": kind, "seed": rng.getrandbits(30), "name": NAMES[i],
         "dir": rng.choice(["", "", "", "cat", "cat/sub", "pack"])}
    if kind == "nfo":
        r["name"] = FIX % rng.choice(["NFOFIX", "DIRFIX"])
    ex = {}
    if kind != "music":
        ex["%s.nfo" % rng.choice(["rel", "Rel-X"])] = 300
    else:
        ex["00-rel.nfo"] = 200
    for n, k, p in (("imdb.nfo", 90, .15), ("no.nfo", 8, .1),
                    ("no.nfo", 9, .05), ("o.nfo", 8, .07),
                    ("CD1/cd.nfo", 50, .07), ("empty.nfo", 0, .07),
                    ("00-rel.m3u", 40, .3), ("rel.cue", 70, .1),
                    ("Proof/p-rel.jpg", 4000, .25),
                    ("Proof/P.PNG", 100, .1), ("Cover/front.jpeg", 20, .1),
                    ("rel-cover.jpg", 500, .12), ("00-front.jpg", 600, .2),
                    ("my cover.jpg", 60, .07), ("big.mkv.txt", 1000, .1),
                    ("Sample/old.srs", 900, .1), ("\xfc.nfo", 30, .07),
                    ("[b].nfo", 31, .07), ("deep/er/x.nfo", 32, .07),
                    ("Screenshots/a.gif", 70, .07), ("Compare/1.bmp", 7, .05),
                    ("AlbumArtSmall.jpg", 90, .07), ("Folder.jpg", 99, .05),
                    ("albumart_{5}_large.jpg", 98, .05),
                    ("zz-x.jpg", 120000, .1), ("zz-b.png", 100001, .1),
                    ("zz-x.gif", 100000, .05)):
        if rng.random() < p:
            ex[n] = k
    if kind == "music":
        ex.pop("Sample/old.srs", None)     # (only good ones are stored)
    for n in LOGS:
        if rng.random() < .12:
            ex[n] = 120
    if kind == "nfo":       # only known by the files in its main folder
        ex = {n: k for n, k in ex.items() if n.count("/") == 0 or
              not n.endswith(".nfo")}
    r["extra"] = ex
    if kind == "rar":
        nsets = rng.choice([1, 1, 1, 2])
        sets = []
        for j in range(nsets):
            s = c05.plan_set(rng, j, nsets, maxfiles=2)
            s["sizes"] = [min(n, 9000) for n in s["sizes"]]
            if rng.random() < .05:
                s["sizes"][0] = 70000
            if sum(s["sizes"]) == 0:
                s["sizes"] = [77]
            nv = rng.choice([1, 1, 2, 3, 5])
            s["volsize"] = None if nv == 1 else max(
                1, -(-sum(s["sizes"]) // nv))
            sets.append(s)
        r["sets"] = sets
        r["damage"] = None
        if rng.random() < .2:
            r["damage"] = {"set": rng.randrange(nsets),
                           "vol": rng.randrange(8),
                           "kind": rng.choice(["missing", "trunc", "empty",
                                               "garbage", "nosfv"]),
                           "at": rng.random()}
        r["samples"] = []
        same = rng.random() < .4        # names that only differ in the .ext
        for j in range(3 if same else rng.choice([0, 1, 1, 1, 2])):
            m = media.plan(rng, kind=rng.choice(
                ["avi", "mkv", "mp4", "wmv", "stream"]), tier=tier)
            m["base"] = "rel-sample%d" % (j % 2 if same else j)
            m["divx"] = False       # (no known extension)
            m["vmax"] = min(m["vmax"], 1200)
            if m["kind"] == "stream":
                m["ext"] = rng.choice([".vob", ".ts", ".mpeg"])
                m["main"] = m["size"] = min(m["size"], 3000)
                m["off"] = 0
            r["samples"].append({
                "media": m, "where": rng.choice(["Sample", "Sample",
                                                 "sample", ""]),
                "inrar": rng.random() < .4 and j == 0,
                "bad": rng.choice([None] * 8 + ["trunc", "flip", "empty",
                                                "garbage"]),
                "at": rng.random(), "srsthere": rng.random() < .1})
        if same:
            for s in r["samples"]:
                s["srsthere"] = False
                if s["where"] == "":
                    s["where"] = "Sample"
        r["subs"] = []
        subfix = nsets == 1 and not r["damage"] and rng.random() < .1
        if subfix:          # nothing but subtitles
            r["name"], r["sets"] = FIX % "SUBFIX", []
        for where in rng.choice([["Subs"], ["Subs"], ["VobSubs"],
                                 ["subtitles"], ["Sub"], ["Codec"],
                                 ["subs/CD1", "subs/CD2"],
                                 ["REL.SUBPACK"]]):
            if subfix:
                if r["subs"]:
                    break
                where = ""
            elif rng.random() > .38:
                continue
            r["subs"].append({
                         "dir": where,
                         "base": rng.choice(["rel.subs", "rel-sub"]),
                         "inner": rng.choice(["sub", "rar", "rar", "srt"]),
                         "vols": rng.choice([1, 1, 2, 3]),
                         "seed": rng.getrandbits(30),
                         "sfv": rng.choice([None, None, "-grp"]),
                         "two": rng.random() < .15,
                         "bad": rng.random() < .1})
            if subfix:
                r["subs"][-1]["base"] = "rel.subs"
        # other things there are RARs of
        r["proofrar"] = rng.choice([None] * 12 + ["img", "img", "mixed", "txt",
                                                  "imgtxt",
                                                  "gone", "two"])
        if subfix and r["proofrar"] in ("txt", "imgtxt", "two"):
            r["proofrar"] = "img"       # (would be subtitles too)
        r["vobrar"] = rng.choice([None] * 12 + ["good", "good", "broken"])
        if nsets == 1 and not subfix and rng.random() < .08:
            r["name"] = FIX % "FIX"
        if all(s["dir"] for s in r["sets"]) and r["sets"] and \
                rng.random() < .15:
            # only known by the SFV files of its disks
            r["extra"] = {n: k for n, k in ex.items() if "/" in n or
                          not n.endswith(".nfo")}
    if kind == "music":
        r["tracks"] = []
        k = rng.choice(["mp3", "mp3", "flac"])
        for j in range(rng.choice([1, 2, 2, 3])):
            m = media.plan(rng, kind=k, tier=tier)
            m["base"] = "0%d-song%d" % (j + 1, j)
            m["size"] = min(m["size"], 3000)
            r["tracks"].append({
                "media": m, "bad": rng.choice([None] * 9 + [
                    "trunc", "empty", "garbage"]), "at": rng.random(),
                "wrongcrc": rng.random() < .08,
                "upper": rng.random() < .1})
        r["disc"] = rng.choice(["", "", "CD1"])
        r["incomplete"] = rng.random() < .08
    return r


def plan(rng, tier):
    rels = []
    for i in range(rng.choice([1, 2, 2, 3, 3, 4])):
        rels.append(plan_rel(rng, i, tier))
    seen = set()
    rels = [r for r in rels if not (r["name"] in seen or seen.add(r["name"]))]
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        recursive = rng.random() < .7
        ops.append({
            "r": recursive, "best": rng.random() < .4,
            "c": rng.random() < .4, "s": rng.random() < .35,
            "v": rng.random() < .35, "d": rng.random() < .2,
            "t": rng.random() < .8, "i": rng.random() < .15,
            "l": rng.random() < .15, "nosrs": rng.random() < .1,
            "noisdb": rng.random() < .1,
            "skip": rng.choice([None, None, None, None, "rel.nfo",
                                "transfer.log"]),
            "regex": rng.choice([None, None, None, None, "^proof/.*"]),
            "answer": rng.choice(["-y", "-y", "-y", "-n", "ask-y", "ask-n"]),
            "missing": not recursive and rng.random() < .1,
            "fpcalc": rng.choice(["ok"] * 12 + ["error", "missing"]),
            "unrar": rng.random() < .9})
    return {"rels": rels, "ops": ops, "faults": [],
            "old": rng.choice([None, None, None, "srr", "junk"]),
            "junk": rng.random() < .3,
            "knobs": {"bufsize": rng.choice([512, 8192, 8192, 65536]),
                      "dir_order": rng.choice(["sorted", "reverse",
                                               rng.randrange(1000)])}}


def shrink(scn):
    if len(scn["rels"]) > 1:
        for i in range(len(scn["rels"])):
            yield dict(scn, rels=scn["rels"][:i] + scn["rels"][i + 1:])
    if scn["junk"]:
        yield dict(scn, junk=False)
    if scn["old"]:
        yield dict(scn, old=None)
    for i, r in enumerate(scn["rels"]):
        def new(**k):
            l = list(scn["rels"])
            l[i] = dict(r, **k)
            return dict(scn, rels=l)
        if r["dir"]:
            yield new(dir="")
        for n in sorted(r["extra"])[1:]:
            yield new(extra={k: v for k, v in r["extra"].items() if k != n})
        for key in ("samples", "tracks"):
            for j in range(len(r.get(key, ()))):
                if key == "samples" or len(r[key]) > 1:
                    yield new(**{key: r[key][:j] + r[key][j + 1:]})
                t = r[key][j]
                for k, v in (("bad", None), ("srsthere", False),
                             ("inrar", False), ("wrongcrc", False)):
                    if t.get(k, v) != v:
                        yield new(**{key: r[key][:j] + [dict(t, **{k: v})]
                                     + r[key][j + 1:]})
        for j in range(len(r.get("subs", ()))):
            yield new(subs=r["subs"][:j] + r["subs"][j + 1:])
        for k in ("proofrar", "vobrar"):
            if r.get(k):
                yield new(**{k: None})
        if r.get("damage"):
            yield new(damage=None)
        if len(r.get("sets", ())) > 1 and not r["damage"]:
            yield new(sets=[dict(r["sets"][0], dir="")])
        for j, s in enumerate(r.get("sets", ())):
            for k, v in (("rr", None), ("comment", False), ("padding", 0),
                         ("large", False), ("dirs", []), ("volsize", None)):
                if s[k] != v:
                    yield new(sets=r["sets"][:j] + [dict(s, **{k: v})]
                              + r["sets"][j + 1:])
    for i, o in enumerate(scn["ops"]):
        for k in ("best", "c", "s", "v", "d", "i", "l", "nosrs", "noisdb",
                  "skip", "regex", "missing"):
            if o[k]:
                oo = list(scn["ops"])
                oo[i] = dict(o, **{k: None if k in ("skip", "regex")
                                   else False})
                yield dict(scn, ops=oo)


# -- the releases -------------------------------------------------------------

def hurt(data, bad, at):
    k = int(at * len(data))
    if bad == "trunc":
        return data[:k]
    if bad == "empty":
        return b""
    if bad == "garbage":
        return b"\x55" * len(data)
    if bad == "flip" and data:
        return data[:k] + bytes([data[k] ^ 0x20]) + data[k + 1:]
    return data


class Rel(object):
    """files {path in release: bytes}, parts [(sfv, rar data)], samples
    {path: Media or None (anything goes)}, subs, broken"""

    def __init__(self, r):
        self.r = r
        self.name = r["name"]
        self.path = IN + "/" + (r["dir"] + "/" if r["dir"] else "") + self.name
        if r["dir"] == "pack":      # starts like the name of a release
            self.path = IN + "/" + NAMES[0] + ".pack/" + self.name
        self.files = {}
        self.parts = []
        self.media = {}
        self.wrong = set()
        self.music = r["kind"] == "music"
        self.broken = False
        self.sub = []
        self.vobsrr = None
        self.proofrars = []
        self.mainsfv = None
        rng = random.Random(r["seed"])
        for n, k in sorted(r["extra"].items()):
            self.files[n] = (b"%s " % n.encode() * (400 if k < 5000 else 15000)
                             )[:k] if k else b""
        if r["kind"] == "rar":
            self.rar(r, rng)
        elif r["kind"] == "music":
            self.tracks(r)

    def rar(self, r, rng):
        ms = [media.build(s["media"]) for s in r["samples"]]
        for j, s in enumerate(r["sets"]):
            d = s["dir"] + "/" if s["dir"] else ""
            if j == 0 and r["samples"] and r["samples"][0]["inrar"]:
                m = ms[0]
                n = len(m.main)
                rs = F.rarset(rng, base=s["base"], files=[
                    ("movie" + m.main_ext, m.main)],
                    volsize=s["volsize"] and max(40, -(-n // 3)),
                    style=s["style"], rr=s["rr"])
            else:
                rs = c05.build(s, j)
            vols = dict(rs.vols)
            sfv = rs.sfv()
            dm = r["damage"]
            if dm and dm["set"] == j:
                n = rs.names[dm["vol"] % len(rs.names)]
                if dm["kind"] == "nosfv":
                    sfv = b"; nothing in here\r\n"
                else:
                    vols[n] = c03.damaged(vols[n], dm)
                    if vols[n] is None:
                        del vols[n]
                self.broken = True
            for n, b in vols.items():
                self.files[d + n] = b
            self.files[d + rs.base + ".sfv"] = sfv
            self.mainsfv = d + rs.base + ".sfv"
            self.parts.append(b"".join(F.srr_of_rar(d + n, rs.vols[n])
                                       for n in rs.names))
        for s, m in zip(r["samples"], ms):
            n = (s["where"] + "/" if s["where"] else "") + m.name
            self.files[n] = hurt(m.sample, s["bad"], s["at"])
            self.media[n] = m if self.files[n] == m.sample else None
            if s["srsthere"]:
                self.files[n.rsplit(".", 1)[0] + ".srs"] = b"some old SRS"
        for i, s in enumerate(r["subs"]):
            self.subs(s, i)
        if r["proofrar"]:
            self.proof(r["proofrar"], rng)
        if r["vobrar"]:
            self.vob(r["vobrar"], rng)

    def proof(self, kind, rng):
        files = [("p.jpg", F.rb(rng, 300))]
        if kind == "txt":
            files = [("p.txt", F.rb(rng, 300))]
        elif kind == "mixed":
            files.insert(0, ("p.txt", F.rb(rng, 40)))
        elif kind == "imgtxt":      # not only a proof
            files.append(("p.txt", F.rb(rng, 41)))
        rs = F.rarset(rng, base="prf-rel", files=files)
        vols = dict(rs.vols)
        sfv = rs.sfv()
        if kind == "two":       # not a single RAR file with images
            o = F.rarset(rng, base="prf-rel2", files=[("q.png", b"q" * 70)])
            vols.update(o.vols)
            sfv += o.sfv()
            self.parts.append(b"".join(F.srr_of_rar("Proof/" + n, vols[n])
                                       for n in sorted(vols)))
        elif kind in ("txt", "imgtxt"):
            self.parts.append(F.srr_of_rar("Proof/prf-rel.rar",
                                           vols["prf-rel.rar"]))
        if kind == "gone":
            vols = {}
        for n, b in vols.items():
            self.files["Proof/" + n] = b
            if kind != "txt":
                self.proofrars.append("Proof/" + n)
        self.files["Proof/prf-rel.sfv"] = sfv

    def vob(self, kind, rng):
        rs = F.rarset(rng, base="v", files=[("v.bin", F.rb(rng, 900))],
                      volsize=500, end="plain")
        m = media.Media()
        m.name, data = "rel-vob.vob", rs.vols["v.rar"]
        if kind == "broken":
            data = data[:rng.randint(14, 60)] if rng.random() < .5 else \
                data[:30] + b"\xff" * 40 + data[70:]
        m.sample, m.tracks = data, {1: data}
        m.crc = zlib.crc32(data)
        self.files["Sample/" + m.name] = data
        self.media["Sample/" + m.name] = m
        self.vobsrr = ("Sample/rel-vob.srr", F.srr_of_rar(m.name, data)
                       if kind == "good" else None)

    def subs(self, s, i):
        rng = random.Random(s["seed"])
        idx = b"# VobSub\nid: en, index: 0\nid: nl, index: 1\n"
        nested = b""
        files = []
        if s["inner"] == "srt":
            files = [("rel.srt", F.rb(rng, 300))]
        elif s["inner"] == "sub":
            files = [("rel.idx", idx), ("rel.sub", F.rb(rng, 700))]
        else:
            ib = F.rarset(rng, base="rel", files=[("rel.sub",
                                                   F.rb(rng, 600))])
            files = [("rel.idx", idx), ("rel.rar", ib.vols["rel.rar"])]
            nested = F.srr_of_rar("rel.rar", ib.vols["rel.rar"])
        total = sum(len(d) for _, d in files)
        rs = F.rarset(rng, base=s["base"], files=files, volsize=None
                      if s["vols"] == 1 else -(-total // s["vols"]))
        d = s["dir"] + "/" if s["dir"] else ""
        if not s["dir"]:
            self.parts.append(b"".join(F.srr_of_rar(n, rs.vols[n])
                                       for n in rs.names))
            self.broken |= s["bad"]
        for n in rs.names:
            self.files[d + n] = rs.vols[n]
        sfv = rs.sfv()
        out = s["base"] + (s["sfv"] or "")
        if s["two"]:        # sets
            o = F.rarset(rng, base=s["base"] + ".uk", files=[
                ("uk.srt", F.rb(rng, 90))])
            uk, = o.names
            self.files[d + uk] = o.vols[uk]
            sfv += o.sfv()
            out = s["base"]
            if not s["dir"]:
                self.parts[-1] += F.srr_of_rar(uk, o.vols[uk])
        self.files[d + s["base"] + (s["sfv"] or "") + ".sfv"] = sfv
        if s["bad"]:
            n = rs.names[-1]
            self.files[d + n] = rs.vols[n][:-30]
        diz = b"# rel.idx\nid: en, index: 0\nid: nl, index: 1\n"
        self.sub.append((
            d + out + ".srr",
            nested, None if s["inner"] == "srt" else diz,
            b"".join(F.srr_of_rar(n, rs.vols[n]) for n in rs.names),
            s["bad"]))
        if s["two"]:
            self.sub.append((d + s["base"] + ".uk.srr", b"", None,
                             F.srr_of_rar(uk, o.vols[uk]), False))

    def tracks(self, r):
        d = r["disc"] + "/" if r["disc"] else ""
        lines = b""
        for t in r["tracks"]:
            m = media.build(t["media"])
            n = d + m.name
            self.files[n] = hurt(m.sample, t["bad"], t["at"])
            self.media[n] = m if self.files[n] == m.sample else None
            lines += ("%s %08x\r\n" % (
                m.name.upper() if t["upper"] else m.name,
                m.crc ^ t["wrongcrc"])).encode()
            if t["wrongcrc"]:
                self.wrong.add(n)
        if r["incomplete"]:
            lines += b"09-gone.mp3 12345678\r\n"
            self.broken = None      # accepted or not
        self.files[d + "00-rel.sfv"] = lines

    def stored(self, op):
        """-> ({name: bytes}, {sample path: result without extension})"""
        res, smp = {}, {}
        # what the images of the release are named like
        names = {os.path.basename(p)[:-4].lower().split("-")[-1]
                 for p in self.files if p[-4:].lower() in (
                     ".sfv", ".nfo", ".m3u", ".rar")}
        for p, b in self.files.items():
            base = os.path.basename(p)
            low = base.lower()
            full = (self.path + "/" + p).lower()
            keep = False
            if low.endswith(".nfo"):
                keep = low not in ("imdb.nfo", "tvmaze.nfo") and not (
                    low == "no.nfo" and len(b) == 8)
            elif low.endswith((".m3u", ".cue", ".sfv", ".srs")):
                keep = True
            elif low.endswith(".log"):
                keep = LOGS[base]
            elif low.endswith(PICS):
                keep = "proof" in full or "sample" in full or \
                    "/cover" in full or "/screenshots" in full or \
                    "/compare" in full
                if not keep and not (" " in base or low == "folder.jpg" or
                                     low.startswith("albumart")):
                    keep = op["i"] or base.startswith(("00", "01")) or (
                        len(b) > 100000 and
                        base[:-4].split("-")[-1] in names)
            elif p in self.proofrars:
                keep = True
            elif p in self.media and not op["nosrs"]:
                smp[p] = p.rsplit(".", 1)[0]
            if keep:
                res[p] = b
        p = self.mainsfv
        if self.name == FIX % "FIX" and len(self.parts) == 1:
            n = [l.split(b" ")[0] for l in self.files[p].split(b"\r\n")
                 if l and not l.startswith(b";")]
            if len(n) == 1:
                p = p[:p.rfind("/") + 1] + n[0].decode()
                res[p] = self.files[p]
        base = list(smp.values())
        for p, b in smp.items():
            if base.count(b) > 1:
                smp[p] = p              # with the extension
        return res, smp


def check_sub(sub, data):
    """the SRR of the vobsubs -> what is wrong or None, files it lacks"""
    _, nested, diz, tail, bad = sub
    app, stored, rest, _ = F.parse_srr(data)
    lost = 0
    if rest != tail:
        return "RAR data", 0
    want = []
    if nested:
        want.append("rel.srr")
    if diz:
        want.append("languages.diz")
    names = sorted(n for n, _ in stored)
    if names != sorted(want):
        if set(names) <= set(want) and len(set(names)) == len(names):
            lost = len(want) - len(names)
        else:
            return "stored %s" % names, 0
    for n, b in stored:
        if n == "languages.diz" and b != diz:
            return "languages.diz", 0
        if n == "rel.srr" and F.parse_srr(b)[1:3] != ([], nested):
            return "rel.srr", 0
    return None, lost


def skipped(op, name):
    return op["skip"] == os.path.basename(name) or (
        op["regex"] and name.lower().startswith("proof/"))


def judge(rel, op, data, log="", out=""):
    """-> (what is wrong or None, number of tolerated deviations)"""
    try:
        app, stored, tail, items = F.parse_srr(data)
    except ValueError as e:
        return "corrupt: %s" % e, 0
    if app != pyrescene_name():
        return "application %r" % app, 0
    tail = b"".join(h + d for t, h, d in items if t not in (
        0x69, 0x6A, 0x6B))
    if not any(tail == b"".join(l)
               for l in itertools.permutations(rel.parts)):
        return "RAR data: %d bytes, expected %d" % (
            len(tail), sum(map(len, rel.parts))), 0
    want, smp = rel.stored(op)
    have = {}
    for n, b in stored:
        if n in have:
            return "stored twice: %s" % n, 0
        have[n] = b
    dev = 0
    for p, base in smp.items():
        m = rel.media[p]
        got = have.pop(base + ".srs", None)
        err = have.pop(p + ".txt", None)
        if base + ".srs" in want:
            old = want.pop(base + ".srs")
            if got is None and not skipped(op, base + ".srs"):
                return "lost %s.srs" % base, 0
            if got == old:
                if m is not None:
                    dev += 1
                continue
        if skipped(op, base + ".srs") or skipped(op, p + ".txt"):
            continue
        if got is not None and m is not None:
            e = media.check_srs(got, m, resample.APPNAME, checked=False)
            if e and "track" in e:
                e = media.check_srs(got, m, resample.APPNAME, checked=True)
            if e:
                return "%s.srs: %s" % (base, e), 0
            if err is not None:
                return "%s.txt with a good SRS" % p, 0
            if p in rel.wrong:
                return "stored although the SFV differs: %s" % p, 0
        elif got is None and m is not None:
            if err is None and p not in rel.wrong and (
                    "Couldn't load srs data of %s." % os.path.basename(
                        base + ".srs")) not in log:
                return "neither SRS nor error for %s" % p, 0
            dev += p not in rel.wrong
        elif m is None and not rel.music:
            if (got is None) and (err is None) and rel.files[p]:
                return "neither SRS nor error for %s" % p, 0
    if rel.vobsrr and "Sample/rel-vob.vob" in smp:
        n, tail = rel.vobsrr
        got = have.pop(n, None)
        if got is not None:
            if tail and F.parse_srr(got)[1:3] != ([], tail):
                return "%s differs" % n, 0
        elif tail and not skipped(op, n):
            if "Broken RAR used as vobsample!" in out:
                dev += 1
            elif "Sample/rel-vob.srs" in dict(stored):
                return "lost " + n, 0
    for sub in rel.sub:
        n = sub[0]
        got = have.pop(n, None)
        on = (op["best"] or op["v"]) and op["unrar"]
        if got is not None:
            try:
                e, lost = check_sub(sub, got)
            except ValueError as x:
                e, lost = str(x), 0
            if e and not sub[4]:
                return "%s: %s" % (n, e), 0
            if not sub[4]:
                dev += lost
        if got is None and on and not sub[4]:
            dev += not (n.endswith(".uk.srr") and
                        n[:-6] + "srr" not in dict(stored))
        if got is not None and not on:
            return "%s was not asked for" % n, 0
    want = {n: b for n, b in want.items() if not skipped(op, n)}
    if have != want:
        return "stored %s, expected %s" % (
            sorted((n, len(b)) for n, b in have.items()
                   if want.get(n) != b),
            sorted((n, len(b)) for n, b in want.items()
                   if have.get(n) != b)), 0
    return None, dev


def pyrescene_name():
    return "pyReScene Auto %s" % rescene.__version__


def unrar_model(fs):
    def run(argv, popen):
        if len(argv) < 8 or argv[1] != "e":
            return 7, b"unknown command"
        first, dest = argv[-3], argv[-1]
        names, part = {}, []
        data = fs.get(first)
        base, i = first[:-4], 0
        fail = False
        if data is None:
            return 10, b"No files to extract"
        while data is not None:
            more = False
            for t, h, d in F.rar_blocks(data):
                if t != 0x74:
                    continue
                ln = int.from_bytes(h[26:28], "little")
                packed = int.from_bytes(h[7:11], "little")
                n = h[32:32 + ln].split(b"\0")[0].decode("latin-1")
                n = n.replace("\\", "/").split("/")[-1]
                fl = int.from_bytes(h[3:5], "little")
                if fl & 0xE0 == 0xE0:
                    continue
                names.setdefault(n, b"")
                names[n] += d
                fail |= len(d) != packed
                more = bool(fl & 2)
            if not more:
                break
            data = fs.get(base + ".r%02d" % i)
            i += 1
            fail |= data is None
        if popen.dies:
            return 255, b"User break"
        for n, d in names.items():
            fs.put(dest + "/" + n, d)
        return (3 if fail else 0), b"Extracting"
    return run


# -- the run ------------------------------------------------------------------

def command(op, rels):
    argv = []
    if op["r"]:
        argv.append(IN)
        argv.append("-r")
    else:
        argv += [rel.path for rel in rels]
        if op["missing"]:
            argv.insert(0, IN + "/gone")
    for k, f in (("best", "--best"), ("c", "-c"), ("s", "-s"), ("v", "-v"),
                 ("d", "-d"), ("i", "-i"), ("l", "-l"),
                 ("nosrs", "--no-srs"), ("noisdb", "--no-isdb")):
        if op[k]:
            argv.append(f)
    argv += ["-o", OUT]
    if op["t"]:
        argv += ["-t", TMP]
    if op["skip"]:
        argv += ["-x", op["skip"]]
    if op["regex"]:
        argv += ["--skip-regex", op["regex"]]
    text = ""
    if op["answer"].startswith("ask"):
        text = "?\n" + (op["answer"][-1] + "\n") * 20
    else:
        argv.append(op["answer"])
    return argv, text


def run(scn):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    fs = sim.fs
    rels = [Rel(r) for r in scn["rels"]]
    vs, probes = [], {}
    made = False

    def probe(k):
        probes[k] = probes.get(k, 0) + 1
    for rel in rels:
        fs.mkdirs(rel.path)
        for n, b in rel.files.items():
            fs.put(rel.path + "/" + n, b)
    if scn["junk"]:
        fs.put(IN + "/junk/readme.txt", b"no release")
        fs.put(IN + "/some folder/x.nfo", b"a space in its name")
        fs.put(IN + "/zz/CD1/x.bin", b"no sfv")
    fs.put(OUT + "/keep.txt", b"keep")
    fs.put(TMP + "/keep.txt", b"keep")
    if scn["old"]:
        for rel in rels:
            for d in (OUT, rel.path):
                fs.put(d + "/" + rel.name + ".srr",
                       OLD if scn["old"] == "srr" else b"not an srr")
    pyrescene.datetime = FakeDate
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            sim.op = -2
            media.install_fpcalc(fs, op["fpcalc"])
            fs.rm(media.FPCALC) if op["fpcalc"] == "missing" and \
                fs.exists(media.FPCALC) else None
            if op["unrar"]:
                fs.put("/sim/bin/unrar", b"#!stub", mode=0o755)
                proc.HANDLERS[lambda n: n == "unrar"] = unrar_model(fs)
            elif fs.exists("/sim/bin/unrar"):
                fs.rm("/sim/bin/unrar")
            disk = dict(fs.tree("/sim"))
            dirs0 = set(fs.tree("/sim", True))
            argv, text = command(op, rels)
            sim.op = i - 1
            pyrescene.datetime = FakeDate
            logging.root.handlers[:] = []

            def go():
                # what importing the program does
                rescene.change_rescene_name_version(pyrescene_name())
                return pyrescene.main(argv)
            r = cli(sim, go, argv, stdin_text=text)
            logging.root.handlers[:] = []
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            kb = [f for f in hard if f[0] == "KBINT"]
            where = "op %d %s (%s)%s" % (
                i, " ".join(argv), r, " after " + (", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                ) if fired else "")
            tail = "\n" + r.out[-900:] + r.err[-500:] + r.tb[-1200:]
            bad = None
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
            good = r.kind in ("ok", "exit") and not r.value
            tree = fs.tree("/sim")
            log = r.err + "".join(
                b.decode("latin-1") for p, b in tree.items()
                if p.startswith(OUT + "/pyReScene_report_"))
            # is a failure of the whole run legitimate?
            early = hard and (r.kind == "exc" or "The provided temporary "
                              "directory does not exist." in r.out)
            aborted = bool(kb) or early or \
                "Please put the fpcalc executable" in r.out
            if r.kind == "exc" and not (hard and isinstance(
                    r.exc, (OSError, EOFError))):
                bad = ("unexpected-error", "")
            if r.kind == "kbint" and not kb:
                bad = ("unexpected-error", "")
            results = {}
            budget = len(hard) if not any(f.get("sticky") for f in
                                          scn["faults"]) else 99
            for rel in rels:
                out = (rel.path if op["d"] else OUT) + "/" + rel.name + ".srr"
                results[out] = rel
                if bad:
                    break
                old, now = disk.get(out), tree.get(out)
                no = old is not None and op["answer"] in ("-n", "ask-n")
                if no:
                    if now != old:
                        bad = ("overwrote-declined", out)
                    elif good and op["answer"] == "ask-n":
                        bad = ("false-success", "declined: " + out)
                    continue
                same = now == old and now is not None and \
                    not rel.broken and judge(rel, op, now, log, r.out)[0] is None
                if (now is None or now == old) and not same:
                    probe("not_made")
                    if r.kind == "exc" or aborted:
                        pass
                    elif good:
                        bad = ("false-success", "no " + out)
                    elif unread(r.out, rel.path):
                        pass
                    elif "\n" + rel.path + "\n" not in r.out[
                            r.out.find("some SRRs failed to create"):]:
                        if not any(f[1] in ("listdir", "stat") for f in hard):
                            bad = ("not-reported", rel.path)
                    if not aborted and rel.broken is False and \
                            not unread(r.out, rel.path):
                        budget -= 1
                        if budget < 0 and not bad:
                            bad = ("not-made", "%s (%d failures)" % (
                                out, len(hard) - budget))
                    continue
                if rel.broken:
                    bad = ("success-from-bad-input", out)
                    continue
                e, dev = judge(rel, op, now, log, r.out)
                if op["fpcalc"] != "ok" or now == old:
                    dev = 0
                if e:
                    bad = ("incomplete-srr", "%s: %s" % (out, e))
                    continue
                budget -= dev
                if budget < 0:
                    bad = ("incomplete-srr", "%s: %d files without SRS" % (
                        out, dev))
                made = True
                probe("made" + ("_despite_fault" if hard else ""))
            if op["missing"] and not op["r"] and good and not bad:
                bad = ("false-success", "of a missing folder")
            if not bad and not hard and not good and not op["missing"] and \
                    op["answer"] != "ask-n" and not aborted and all(
                        rel.broken is False for rel in rels):
                bad = ("false-failure", "")
            # nothing else changed
            if not bad:
                for p in sorted(set(disk) | set(tree)):
                    if disk.get(p) == tree.get(p) or p in results:
                        continue
                    if p in sim.denied or any(p.startswith(d + "/")
                                              for d in sim.unlisted):
                        continue
                    if op["l"] and p.startswith(OUT + "/pyReScene_report_") \
                            and p in tree:
                        continue
                    if kb and cleaning(kb, p) and p not in disk:
                        continue
                    if "/SRR-" in p and p not in disk and \
                            "Could not empty temporary" in r.out and any(
                                f[1] in ("unlink", "rmdir", "listdir")
                                for f in hard):
                        continue    # reported
                    bad = ("litter" if p not in disk else
                           "user-file-changed", "%s: was %s, now %s" % (
                               p, p in disk and len(disk[p]),
                               p in tree and len(tree[p])))
                    break
            if not bad and not hard:
                left = [d for d in set(fs.tree("/sim", True)) - dirs0
                        if d not in tree]
                if left:
                    bad = ("litter", "folders %s" % left)
            if bad:
                vs.append(violation(bad[0], "%s: %s%s" % (
                    bad[1], where, tail)))
                break
            probe("success" if good else "failure")
            if kb:
                probe("interrupted")
            # what is left of a failed clean up is removed by the user
            for p in tree:
                if p not in disk and p not in results and not p.startswith(
                        OUT + "/pyReScene"):
                    fs.rm(p)
    return result(sim, vs, nontrivial=made or bool(sim.fired),
                  probes=probes)


def unread(out, path):
    """a folder the release is in is reported as unreadable"""
    return any(line.startswith("Could not read folder: ") and
               (path + "/").startswith(line.split("'")[1] + "/")
               for line in out.split("\n") if line.count("'") == 2)


def cleaning(kb, p):
    """the interrupt came while the temporary files were removed"""
    return any(f[1] in ("unlink", "rmdir", "listdir", "mkdir") for f in kb)
