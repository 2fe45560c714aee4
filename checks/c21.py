"""C21: the tools for NZB and SRR collections lose nothing."""
import os
import random
import sys
import types
import unittest
import warnings
import zlib
import xml.dom.minidom
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from sim import core, fixtures as F, media
from sim.common import STATE, W, REPO, cli, result, violation
from checks import c05

sys.path.append(os.path.join(REPO, "bin"))
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import rescene
    import resample
    from resample import main as smain, srs as srsm
    from rescene import main as rmain, rar as rrar, utility
    import pynzb
    import nzb_utils
    import nzb_split

STATE.add(rescene, rmain, rrar, utility, nzb_utils, nzb_split, resample,
          smain, srsm)

TOOLS = {"split": "usenet/nzb_split.py", "merge": "usenet/nzb_merge.py",
         "rename": "usenet/nzb_rename.py", "age": "usenet/nzb_age.py",
         "sample": "usenet/nzb_sample_extract.py", "sort": "bin/srr_sort.py",
         "srs": "bin/srr_extract_srs.py", "batch": "bin/srs_batch.py"}
CODE = {}
for _t, _p in TOOLS.items():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with open(os.path.join(REPO, _p), "rb") as _f:
            CODE[_t] = compile(_f.read(), os.path.join(REPO, _p), "exec")

BUDGET = {"quick": (900, 8, 100), "thorough": (12000, 24, 2400)}
KINDS = ("EIO", "ENOSPC", "EACCES", "EBUSY", "EMFILE", "SHORT", "KBINT",
         "CRASH", "TORN")
SITE_WEIGHTS = {"write": 6, "creat": 5, "rename": 6, "unlink": 5, "read": 1,
                "open": 2, "mkdir": 3, "listdir": 2}
RULE = ("A run is 1-4 uses of the tools that split, merge, rename, sort or "
        "filter NZB files and SRR files, after each other on the same "
        "folders (equal names, empty and broken files, results of earlier "
        "runs), with 0-3 I/O faults, interrupts or process deaths; "
        "non-trivial when a file was written or moved or a fault fired.")
REAL = ["usenet/nzb_split.py", "usenet/nzb_merge.py", "usenet/nzb_rename.py",
        "usenet/nzb_age.py", "usenet/nzb_sample_extract.py",
        "usenet/nzb_utils.py", "usenet/pynzb", "bin/srr_sort.py",
        "bin/srr_extract_srs.py", "bin/srs_batch.py", "resample", "rescene.rar", "rescene.main"]
STUB = ["file system (in memory, fault injecting)", "clock", "stdout"]
ASSUMPTIONS = ["the results of the sample filter may be written over by "
               "later runs of it; only its input has to stay"]
IN, OUT, SMP = W + "/nzbs", W + "/out", W + "/smp"
SRR, SORTED = W + "/srr", W + "/sorted"
SAMPLES, SRSOUT = W + "/rels", W + "/srsout"
OLDSRS = b"an SRS file that was here before"
RELS = ["Alpha.2009.DVDRip.XviD-GRP", "Beta.S01E02.720p.x264-ABC",
        "Ceta_\xe9t\xe9-CD-2004-GRP", "Delta.Proper.2001.PAL.DVDR-LONGNAME",
        "Eta.&.Theta.2011.x264-XyZ"]
NEW = "{http://www.newzbin.com/DTD/2003/nzb}"
KNOWN = (".rar", ".r00", ".r01", ".sfv", ".nfo", ".par2", ".001", ".srr",
         ".avi", ".mkv", ".mp4", ".wmv", ".vob", ".jpg")
VID = ["avi", "mkv", "mp4", "wmv", "vob", "m2ts"]
SWITCH = dict(zip(VID, ["-a", "-m", "-4", "-w", "-v", "-2"]))


# -- NZB files ----------------------------------------------------------------
def plan_entry(rng, rel):
    short = "grp-%s%d" % (rng.choice(["a", "b", "c"]), rng.randrange(9))
    k = rng.random()
    if k < .6:
        n = short + rng.choice([".rar", ".r00", ".r01", ".part01.rar", ".sfv",
                                ".nfo", ".vol003+04.par2", ".par2", ".001",
                                ".srr", ".R00"])
    elif k < .85:
        e = rng.choice(VID[:4] if rng.random() < .7 else VID)
        n = short + "-sample." + (e if rng.random() < .8 else e.upper())
        if rng.random() < .2:
            n += rng.choice([".par2", ".vol01+02.par2"])
        if n[-4:].lower() in (".wmv", ".2ts"):
            n = n.lower()
    elif k < .95:
        n = "01-%s%s" % (short, rng.choice([".mp3", ".flac", ".mp2", ".jpg"]))
        n = n if rng.random() < .7 else "01-%s.nfo" % short
    else:
        n = "readme.diz"
    return {"rel": rel, "name": n,
            "style": rng.choice(["sek9", "teevee", "teevee", "plain"]),
            "segs": [rng.choice([1, 500, 400000])
                     for _ in range(rng.choice([1, 1, 2, 3, 9]))],
            "groups": rng.choice([1, 1, 2]),
            "gap": rng.choice([None] * 5 + ["first", "mid", "turn"]),
            "seed": rng.getrandbits(24)}


def plan_nzb(rng, old=None):
    rels = rng.sample(range(len(RELS)), rng.choice([1, 1, 1, 2, 3]))
    n = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < .9 else 0
    es = [plan_entry(rng, rng.choice(rels)) for _ in range(n)]
    if rng.random() < .7:
        es.sort(key=lambda e: e["rel"])
    return {"entries": es, "old": rng.random() < .5 if old is None else old,
            "bad": rng.choice([None] * 14 + ["cut", "zero", "other"]),
            "form": rng.choice(["plain", "plain", "oneline", "amp", "noend",
                                "latin1"])}


def name_nzb(rng):
    if rng.random() < .5:
        return RELS[rng.randrange(len(RELS))] + rng.choice(
            [".nzb", ".nzb", ".2.nzb"])
    return rng.choice(["a.nzb", "b.nzb", "bb.nzb", "post of today.nzb",
                       "longer_name_of_it.nzb", "UP.NZB", "x.1.nzb",
                       "notes.txt", "x.nzb.bak"])


def plan(rng, tier):
    disk, srrs = {}, {}
    for d in rng.sample(["", "", "Rel.One-GRP/", "Rel.Two-GRP/", "samples/",
                         "Rel.One-GRP/deep/"], rng.choice([1, 2, 3, 4])):
        for _ in range(rng.choice([1, 2, 2, 3, 4, 4, 12])):
            disk[IN + "/" + d + name_nzb(rng)] = plan_nzb(rng)
    if rng.random() < .05:      # many parts
        for i in range(rng.randint(9, 14)):
            disk["%s/Rel.Many-GRP/part%d.nzb" % (IN, i)] = dict(
                plan_nzb(rng), bad=None,
                entries=[plan_entry(rng, rng.randrange(len(RELS)))])
    if rng.random() < .5:
        for _ in range(rng.choice([1, 2, 3])):
            d = rng.choice([OUT, OUT, IN + "/processed/other",
                            IN + "/processed/music", SMP])
            disk[d + "/" + name_nzb(rng)] = plan_nzb(rng)
    for i in range(rng.choice([0, 1, 2, 3])):
        srrs[(SRR if rng.random() < .8 else SORTED) + "/" + rng.choice(
            ["a-grp.srr", "b.srr", "Rel.One-GRP.srr", "dirfix.srr"])] = \
            plan_srr(rng)
    samples = []
    if rng.random() < .25:
        for i in range(rng.choice([1, 2, 3])):
            k = rng.choice(["avi", "mkv", "mp4", "wmv", "stream"])
            z = media.plan(rng, k)
            z.update(base="%s%d" % (z["base"], i),
                     vmax=min(z.get("vmax", 300), 300))
            samples.append({
                "media": z, "dir": rng.choice(["", "Rel.One-GRP/Sample/",
                                               "Rel.Two-GRP/", "a/b/c/"]),
                "bad": rng.choice([None] * 5 + ["cut", "junk", "empty"]),
                "at": rng.random(), "old": rng.random() < .25})
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        if samples and rng.random() < .7:
            ops.append({"tool": "batch", "n": rng.random() < .4, "at": 0})
            continue
        t = rng.choice(["split", "split", "merge", "merge", "rename", "age",
                        "sample", "sample"] + (["sort", "sort", "srs"]
                                               if srrs else []))
        op = {"tool": t, "at": rng.random()}
        if t == "split":
            op["l"] = rng.random() < .3
        elif t == "age":
            op["range"] = rng.choice(["1000-90000"] * 3 + ["1000-1100"])
            op["o"] = rng.random() < .85
        elif t == "sample":
            op["ext"] = [e for e in VID if rng.random() < .4]
            op["max"] = rng.choice([None, None, 600, 400000, 900000])
            op["o"] = rng.choice([None, None, SMP, IN, OUT])
            op["dir"] = rng.random() < .7
            op["spell"] = rng.choice(["abs", "abs", "dots", "rel"])
        elif t == "sort":
            op["flags"] = rng.sample("ceufsnt", rng.choice([1, 1, 2, 3])) + (
                ["-txt"] if rng.random() < .2 else [])
            op["o"] = rng.random() < .85
            op["dir"] = rng.random() < .7
        ops.append(op)
    return {"disk": disk, "srrs": srrs, "samples": samples, "ops": ops,
            "faults": [],
            "knobs": {"bufsize": rng.choice([64, 512, 8192, 8192, 65536]),
                      "dir_order": rng.choice(["sorted", "reverse",
                                               rng.randrange(1000)])}}


def plan_srr(rng):
    st = []
    for n in ("a.nfo", "b.nfo", "c.sfv", "S/a.srs", "S/b.srs", "d.srs",
              "e.txt", "f.SFV", "g.jpg", "a.nfo"):
        if rng.random() < .35:
            st.append([n, rng.choice([0, 5, 700, 9000])])
    s = None
    if rng.random() < .7:
        s = c05.plan_set(rng, 0, 1, maxfiles=2)
    return {"stored": st, "set": s, "packed": rng.choice([None, None, "all", "last"]),
            "bad": rng.random() < .1}


def shrink(scn):
    for k in ("disk", "srrs"):
        for p in sorted(scn[k]):
            yield dict(scn, **{k: {a: b for a, b in scn[k].items()
                                   if a != p}})
    for p, z in sorted(scn["disk"].items()):
        for i in range(len(z["entries"])):
            yield dict(scn, disk=dict(scn["disk"], **{p: dict(
                z, entries=z["entries"][:i] + z["entries"][i + 1:])}))
        for k, v in (("bad", None), ("form", "plain")):
            if z[k] != v:
                yield dict(scn, disk=dict(scn["disk"],
                                          **{p: dict(z, **{k: v})}))


    for i in range(len(scn["samples"])):
        yield dict(scn, samples=scn["samples"][:i] + scn["samples"][i + 1:])
    for i, x in enumerate(scn["samples"]):
        for m in media.shrink(x["media"]):
            yield dict(scn, samples=scn["samples"][:i] + [dict(x, media=m)]
                       + scn["samples"][i + 1:])


def subject(e):
    q = RELS[e["rel"]]
    t = '"%s" yEnc (1/%d)' % (e["name"], len(e["segs"]))
    if e["style"] == "sek9":
        return "[:SEK9:][a.b.x]-[:%s:]-[1/9] - %s" % (q, t)
    if e["style"] == "teevee":
        return "[1234]-[FULL]-[#a.b@EFN]-[ %s ]-[01/20] - %s" % (q, t)
    return "%s [01/20] - %s" % (q, t)


def entry(e, old):
    r = random.Random(e["seed"])
    base = (978307200 if old else 4102444800) + r.randrange(8000000)
    segs = [(str(n), str(i + 1), "s%d.%d&x@sim" % (e["seed"], i))
            for i, n in enumerate(e["segs"])]
    if len(segs) > 1 and e["gap"]:
        if e["gap"] == "turn":
            segs.reverse()
        else:
            del segs[0 if e["gap"] == "first" else len(segs) // 2]
    return ("p%d <a@b.c>" % r.randrange(99), str(base), subject(e),
            tuple("alt.binaries.g%d" % i for i in range(e["groups"])),
            tuple(segs))


def nzb_text(z):
    """-> bytes, entries that are in there"""
    es = [entry(e, z["old"]) for e in z["entries"]]
    if z["bad"] == "zero":
        return b"", []
    form = z["form"]
    nl = "" if form == "oneline" else "\n"
    enc = "iso-8859-1" if form == "latin1" else "UTF-8"
    ns = "http://www.newzbin.com/DTD/2003/nzb"
    if z["bad"] == "other":
        ns = "urn:else"
    t = '<?xml version="1.0" encoding="%s"?>%s' % (enc, nl)
    t += '<!DOCTYPE nzb PUBLIC "-//newzBin//DTD NZB 1.1//EN" ' \
         '"http://www.newzbin.com/DTD/nzb/nzb-1.1.dtd">%s<nzb xmlns="%s">%s' \
         % (nl, ns, nl)
    for p, d, s, g, segs in es:
        t += '<file poster=%s date="%s" subject=%s>%s<groups>%s' % (
            quoteattr(p), d, quoteattr(s, {'"': "&quot;"}), nl, nl)
        t += nl.join("<group>%s</group>" % x for x in g)
        t += "</groups>%s<segments>%s" % (nl, nl)
        t += nl.join('<segment bytes="%s" number="%s">%s</segment>' % (
            b, n, escape(m)) for b, n, m in segs)
        t += "</segments>%s</file>%s" % (nl, nl)
    if form == "amp":
        t = t.replace("&amp;x@", "&x@")
    if form != "noend" or not es:
        t += "</nzb>" + nl
    b = t.encode(enc)
    if z["bad"] == "cut" and es:
        return b[:b.rindex(b"<segment ") + 9], None
    return b, es if ns != "urn:else" else None


def entries_of(data):
    """independent NZB parser; ValueError when it is not well formed"""
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise ValueError(str(e))
    if root.tag != NEW + "nzb":
        raise ValueError("root element %s" % root.tag)
    return [(f.get("poster"), f.get("date"), f.get("subject"),
             tuple(g.text for g in f.iter(NEW + "group")),
             tuple((s.get("bytes"), s.get("number"), s.text)
                   for s in f.iter(NEW + "segment")))
            for f in root.iter(NEW + "file")]


def filename(e):
    return e[2].split('"')[1]


def longest(e):
    """the longest word of the subject"""
    s = e[2]
    for c in "[]<>?*:\"|/\\":
        s = s.replace(c, " ")
    best = ""
    for w in s.split(" "):
        if len(w) > len(best) and filename(e) not in w:
            best = w
    return best


def spell(path, how):
    """another way to write the path"""
    if how == "rel":
        return os.path.relpath(path, "/sim")
    if how == "dots":
        a, b = os.path.split(path)
        return a + "/../" + os.path.basename(a) + "/./" + b
    return path


# -- the tools ----------------------------------------------------------------
def program(tool):
    def run_it():
        m = types.ModuleType("__main__")
        m.__dict__["__file__"] = os.path.join(REPO, TOOLS[tool])
        old = sys.path[:]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                exec(CODE[tool], m.__dict__)
        finally:
            sys.path[:] = old
    return run_it


class Left(Exception):
    """nothing is expected of this use of the tool"""


class World(object):
    def __init__(self, scn):
        self.known = {}     # bytes -> entries (None: cannot be read)
        self.scn = scn

    def read(self, data):
        if data in self.known:
            return self.known[data]
        return entries_of(data)

    def pick(self, tree, at, ext=".nzb", top=(IN, OUT)):
        l = [p for p in sorted(tree) if p.lower().endswith(ext) and
             p.startswith(top)]
        return l[int(at * len(l))] if l else None

    # each: -> argv, (paths -> expected bytes/entries), paths gone
    def split(self, op, tree):
        p = self.pick(tree, op["at"])
        if p is None:
            return None
        argv = (["-l"] if op["l"] else []) + [p, OUT]
        es = self.read(tree[p])
        if es is None:
            return argv, None, ()
        want = {}
        for e in es:
            if not filename(e).lower().endswith(
                    KNOWN) and e[2] in op["out"]:
                continue        # reported as not recognised
            n = RELS[[i for i, r in enumerate(RELS) if r in e[2]][0]]
            q = OUT + "/" + n + ".nzb"
            if q not in want:
                old = []
                if q in tree:
                    old = self.read(tree[q])
                    if old is None and b"urn:else" in tree[q]:
                        old = []        # not an NZB file at all
                    if old is None:
                        return argv, None, ()
                want[q] = list(old)
            want[q].append(e)
        return argv, want, ()

    def merge(self, op, tree):
        want, gone = {}, []
        dirs = {}
        for p in sorted(tree):
            d = os.path.dirname(p)
            if os.path.dirname(d) == IN and p[-4:].lower() == ".nzb":
                dirs.setdefault(d, []).append(p)
        for d, l in dirs.items():
            if len(l) < 2:
                continue
            if any(self.read(tree[p]) is None for p in l):
                return [IN], None, ()
            l = [p for p in l if self.read(tree[p])]
            if len(l) < 2:
                continue
            n = min(map(len, l))
            want[tuple(p for p in l if len(p) == n)] = [
                e for p in l for e in self.read(tree[p])]
            gone += l
        return [IN], want, gone

    def rename(self, op, tree):
        moves = {}
        for p in tree:
            if os.path.dirname(p) != IN or not p.endswith(".nzb"):
                continue
            es = self.read(tree[p])
            if es is None:
                moves[p] = None     # perhaps
                continue
            music = any(filename(e).endswith((".mp3", ".flac", ".mp2"))
                        for e in es)
            moves[p] = "%s/processed/%s/%s.nzb" % (
                IN, "music" if music else "other", longest(es[0]) if es
                else "")
        return [IN], moves, "move"

    def age(self, op, tree):
        argv = [op["range"], IN] + (["-o", OUT] if op["o"] else [])
        moves = {}
        for p in tree:
            if os.path.dirname(p) != IN or not p.endswith(".nzb"):
                continue
            es = self.read(tree[p])
            if op["o"] and es is None:
                moves[p] = None
            elif op["o"] and es and int(es[0][1]) < 2e9 and \
                    op["range"] == "1000-90000":
                moves[p] = OUT + "/" + os.path.basename(p)
        return argv, moves, "move"

    def sample(self, op, tree):
        p = self.pick(tree, op["at"])
        if p is None:
            return None
        ins = [p]
        arg = p
        if op["dir"]:
            arg = os.path.dirname(p)
            ins = [q for q in tree if os.path.dirname(q) == arg
                   and q.lower().endswith(".nzb")]
        argv = [arg]
        exts = op["ext"] or ["avi", "mkv"]
        for e in op["ext"]:
            argv.append(SWITCH[e])
        if op["max"]:
            argv += ["-s", str(op["max"])]
        if op["o"]:
            argv += ["-o", spell(op["o"], op["spell"])]
        out = op["o"] or os.path.dirname(p) + "/samples"
        want = {}
        for q in ins:
            n = out + "/" + os.path.basename(q)
            es = self.read(tree[q])
            if n == q:
                continue
            if es is None:
                # no result, or not known
                want[n] = None
                continue
            got = [e for e in es if self.is_sample(filename(e), exts) and (
                not op["max"] or sum(int(s[0]) for s in e[4]) <= op["max"])]
            if got:
                want[n] = got
        return argv, want, ()

    def is_sample(self, n, exts):
        n = n.lower()
        if n.endswith(".par2"):
            n = n[:-5]
            if n.rsplit(".", 1)[-1].startswith("vol"):
                n = n.rsplit(".", 1)[0]
        return n.endswith(tuple("." + e for e in exts))

    def sort(self, op, tree):
        p = self.pick(tree, op["at"], ".srr", (SRR,))
        if p is None:
            return None
        ins = [p]
        if op["dir"]:
            ins = [q for q in tree if q.endswith(".srr")
                   and os.path.dirname(q) == SRR]
        argv = [SRR if op["dir"] else p] + ["-" + f for f in op["flags"]]
        if op["o"]:
            argv += ["-o", SORTED]
        moves = {}
        for q in ins:
            m = self.matches(op["flags"], tree[q])
            if m is None:
                moves[q] = None
            elif m and op["o"]:
                moves[q] = SORTED + "/" + os.path.basename(q)
        return argv, moves, "move"

    def matches(self, flags, data):
        try:
            _, stored, _, items = F.parse_srr(data)
        except ValueError:
            return None
        names = [n for n, _ in stored]
        meth = [h[25] for t, h, d in items if t == 0x74]
        return any([
            "c" in flags and any(m != 0x30 for m in meth),
            "e" in flags and not meth,
            "u" in flags and len(set(names)) < len(names),
            "f" in flags and not names,
            "s" in flags and not any(n.lower().endswith(".sfv")
                                     for n in names),
            "n" in flags and not any(n.endswith(".nfo") for n in names),
            "t" in flags and len([n for n in names
                                  if n.endswith(".nfo")]) > 1,
            "-txt" in flags and any(n.endswith(".txt") for n in names)])

    def srs(self, op, tree):
        p = self.pick(tree, op["at"], ".srr", (SRR,))
        if p is None:
            return None
        try:
            _, stored, _, _ = F.parse_srr(tree[p])
        except ValueError:
            return [p, OUT], None, ()
        want = {OUT + "/" + n: d for n, d in stored if n.endswith(".srs")}
        if any(n in tree for n in want):
            return None
        return [p, OUT], want, ()


    def batch(self, op, tree):
        if not self.samples:
            return None
        return ["-i", SAMPLES, "-o", SRSOUT] + (["-n"] if op["n"] else []), \
            {}, ()

    def judge_batch(self, op, tree, now, hard, crashed, sim, r):
        for p in tree:
            if p not in now and not p.startswith(SRSOUT):
                return "lost", p
        may = set()
        for x, m in self.samples:
            p = SRSOUT + "/" + x["dir"] + m.name
            srs = p[:p.rindex(".")] + ".srs"
            may |= {srs, p + ".txt"}
            old, new = tree.get(srs), now.get(srs)
            if old is not None and new is None:
                return "lost", srs
            fine = new is not None and (x["bad"] or media.check_srs(
                new, m, resample.APPNAME, big=False) is None)
            if new is not None and new != old and not fine:
                return "wrong-srs", srs
            if op["n"] and old is not None:
                if new != old:
                    return "overwritten", srs
            elif r.kind in ("ok", "exit") and not (fine or p + ".txt" in now) \
                    and not any(f[1] == "listdir" for f in hard):
                return "no-srs-no-reason", srs
            elif not hard and not x["bad"]:
                if not fine or p + ".txt" in now:
                    return "not-made", srs
        for p, b in now.items():
            if tree.get(p) != b and p not in may and not (
                    p not in tree and (crashed or p in sim.denied)):
                return "wrong-file", p
        if not hard and r.kind != "ok":
            return "failed", repr(r)
        return None


def run(scn):
    sim = core.Sim(scn["faults"], dict({"max_steps": 1500000},
                                       **(scn.get("knobs") or {})))
    fs = sim.fs
    w = World(scn)
    w.samples = []
    vs, probes = [], {}
    for d in (IN, OUT, SRR):
        fs.mkdirs(d)
    for p, z in scn["disk"].items():
        b, es = nzb_text(z)
        w.known[b] = es
        fs.put(p, b)
    for p, s in scn["srrs"].items():
        b = F.srr_header("pyReScene 0.7.1")
        for i, (n, k) in enumerate(s["stored"]):
            b += F.srr_stored(n, F.content(random.Random(str((p, i))), k))
        if s["set"]:
            rs = c05.build(s["set"], 0)
            for n in rs.names:
                b += F.srr_of_rar(n, rs.vols[n])
            if s["packed"]:
                b = pack(b, s["packed"])
        fs.put(p, b[:-3] if s["bad"] else b)
    for x in scn["samples"]:
        m = media.build(x["media"])
        b = m.sample
        if x["bad"] == "cut":
            b = b[:int(len(b) * x["at"])]
        elif x["bad"]:
            b = b"not a video" * 40 if x["bad"] == "junk" else b""
        fs.put(SAMPLES + "/" + x["dir"] + m.name, b)
        if x["old"]:
            fs.put(SRSOUT + "/" + x["dir"] + m.name[:m.name.rindex(".")]
                   + ".srs", OLDSRS)
        if m.name.lower().endswith((".avi", ".mkv", ".wmv", ".mp4", ".vob",
                                    ".m2ts")):
            w.samples.append((x, m))
    wrote, junk = False, set()
    with core.running(sim):
        for i, op in enumerate(scn["ops"]):
            for d in (IN, OUT, SRR):    # emptied folders are removed
                fs.mkdirs(d)
            tree = fs.tree(W)
            todo = getattr(w, op["tool"])(dict(op, out=""), tree)
            sim.op = i - 1
            if todo is None:
                continue
            argv = todo[0]
            r = cli(sim, program(op["tool"]), argv, prog=os.path.join(
                REPO, TOOLS[op["tool"]]), sched=False)
            fired = [f for f in sim.fired if f[2] == i]
            hard = [f for f in fired if f[0] != "SHORT"]
            crashed = fs.crashed
            where = "op %d %s %s (%r)%s" % (
                i, op["tool"], argv, r, " after " + ", ".join(
                    "%s@%s %s" % (f[0], f[1], f[4]) for f in fired)
                if fired else "")
            tail = "\n" + r.out[-700:] + r.tb[-700:]
            if crashed:
                sim.restart()
            now = fs.tree(W)
            wrote |= now != tree
            # what the tool printed decides about entries without a name
            _, want, gone = getattr(w, op["tool"])(dict(op, out=r.out), tree)
            # temporary files of a killed process or that it cannot remove
            junk |= {p for p in now if p not in tree and
                     (crashed or p in sim.denied) and
                     not p.lower().endswith((".nzb", ".srr", ".srs"))}
            bad = w.judge_batch(op, tree, now, hard, crashed, sim, r) \
                if op["tool"] == "batch" else judge(w, op, tree, now, want, gone, hard, crashed, sim, r,
                        junk)
            if bad:
                vs.append(violation(bad[0], "%s: %s%s" % (where, bad[1],
                                                          tail)))
                break
            k = op["tool"] + (" crashed" if crashed else " faulted" if hard
                              else " done" if want else " idle")
            probes[k] = probes.get(k, 0) + 1
            if r.kind == "steps":
                vs.append(violation("no-termination", where))
                break
    return result(sim, vs, probes=probes, nontrivial=wrote or bool(sim.fired))


def pack(srr, which):
    """mark (some of) the RARs' files as compressed"""
    items = F.parse_srr(srr)[3]
    names = [h[32:] for t, h, d in items if t == 0x74]
    out = b""
    for t, h, d in items:
        if t == 0x74 and (which == "all" or h[32:] == names[-1]):
            h = h[:25] + b"\x33" + h[26:]
            h = (zlib.crc32(h[2:]) & 0xFFFF).to_bytes(2, "little") + h[2:]
        out += h + d
    return out


def sub(a, b):
    """a is b with some elements left out"""
    it = iter(b)
    return all(x in it for x in a)


def count(l):
    res = {}
    for x in l:
        res[x] = res.get(x, 0) + 1
    return res


def judge(w, op, tree, now, want, gone, hard, crashed, sim, r, junk):
    tool = op["tool"]
    out = {}
    for p, b in now.items():
        if tree.get(p) != b:
            out[p] = b
    missing = [p for p in tree if p not in now and p not in junk]
    changed = [p for p in out if p in tree and p not in junk]
    added = [p for p in out if p not in tree]
    if gone == "move":
        tree = {p: b for p, b in tree.items() if p not in junk}
        now = {p: b for p, b in now.items() if p not in junk}
        # every file is where it was or, whole, at its new place
        if changed:
            return "overwritten", changed
        if count(tree.values()) != count(now.values()):
            return "lost", "%s -> %s" % (missing, added)
        for p in missing:
            if p not in want:
                return "moved-needlessly", p
        dests = {want[p] for p in missing if want[p]}
        odd = [p for p in added if p not in dests]
        if odd and not any(want[p] is None for p in missing):
            return "moved-elsewhere", "%s -> %s" % (missing, odd)
        if not hard:
            for p, q in want.items():
                if q is not None and p in now and q not in now:
                    return "not-moved", "%s to %s" % (p, q)
        return None
    if tool == "merge":
        for p in changed:
            if want is not None and not any(p in k for k in want):
                return "overwritten", p
        before, after = [], []
        for p, b in tree.items():
            if p.lower().endswith(".nzb") and p.startswith(IN):
                es = w.read(b)
                before += [b] if es is None else es
        for p, b in now.items():
            if p.lower().endswith(".nzb") and p.startswith(IN):
                try:
                    es = w.read(b)
                except ValueError as e:
                    return "broken-nzb", "%s: %s" % (p, e)
                after += [b] if es is None else es
        cb, ca = count(before), count(after)
        lost = [x for x in cb if ca.get(x, 0) < cb[x]]
        if lost:
            return "lost", "%d file entries of NZBs, removed %s" % (
                len(lost), missing)
        others = [p for p in missing if want is not None and p not in gone
                  or p[-4:].lower() != ".nzb"]
        if others:
            return "lost", others
        noise = [p for p in added if not crashed and p not in sim.denied]
        if noise:
            return "litter", noise
        if want is not None and not hard:
            if r.kind != "ok":
                return "failed", repr(r)
            for k, es in want.items():
                have = [p for p in k if p in now and p in out]
                if len(have) != 1 or count(w.read(now[have[0]])) != count(es):
                    return "not-merged", "%s %s" % (k, have)
            if count(gone) != count(missing + [
                    p for p in out if p in tree]):
                return "not-removed", [p for p in gone if p in now]
        return None
    # split, sample, srs: nothing disappears, results are whole
    if missing:
        return "lost", missing
    if want is None:
        # input that cannot be read: nothing may come of it
        if tool == "split":
            bad = [p for p in changed]
        elif tool == "sample":
            bad = []
        else:
            bad = changed
        return ("overwritten", bad) if bad else None
    noise = [p for p in out if p not in want and p not in junk and not (
        p not in tree and (crashed or p in sim.denied))]
    if noise:
        return "wrong-file", noise
    for p, b in out.items():
        if p not in want or want[p] is None:
            continue
        if tool == "srs":
            if b != want[p] and not crashed and not (
                    hard and want[p].startswith(b)):
                return "wrong-content", p
            continue
        try:
            es = entries_of(b)
        except ValueError as e:
            return "broken-nzb", "%s: %s" % (p, e)
        if es == want[p]:
            continue
        if tool == "split" and hard:
            old = w.read(tree[p]) if p in tree else []
            if es[:len(old)] == old and sub(es, want[p]):
                continue
        return "wrong-entries", "%s: %d, expected %d" % (p, len(es),
                                                         len(want[p]))
    if not hard:
        if r.kind != "ok":
            return "failed", repr(r)
        for p, x in want.items():
            if x is None:
                continue
            have = now.get(p)
            if have is None or (have != x if tool == "srs" else
                                w.read(have) != x):
                return "not-made", p
    return None
