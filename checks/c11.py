"""C11: an SRR made from Usenet equals the SRR made from the files on disk."""
import os
import random
import struct
import sys
import types
import warnings
import zlib

from sim import core, fixtures as F, net
from sim.common import STATE, W, REPO, cli, result, violation
from checks import c05

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import nntplib
    import rescene
    from rescene import main as rmain, rar as rrar, utility
    import yenc
    import nzb_utils
    import pynzb
    SRC = os.path.join(REPO, "usenet", "srr_usenet.py")
    with open(SRC, "rb") as _f:
        CODE = compile(_f.read(), SRC, "exec")

STATE.add(rescene, rmain, rrar, utility, yenc, nzb_utils)

BUDGET = {"quick": (420, 5, 100), "thorough": (5000, 25, 2400)}
KINDS = ("REFUSED", "DNS", "TIMEOUT", "DROP", "RESET", "TEMP", "PERM", "CUT",
         "FLIP", "SLOW", "KBINT", "EIO", "ENOSPC", "EACCES", "SHORT")
SITE_WEIGHTS = {"reply": 12, "connect": 4, "write": 1, "creat": 1}
RULE = ("A run posts a release (RAR sets, SFV, nfo, images, other files) to "
        "1-3 news servers that each have a part of the articles and makes an "
        "SRR from the NZB with any of the options of the tool, with 0-3 "
        "network faults (refused, DNS, time-out, drop, reset, 4xx, 5xx, cut "
        "or corrupt reply, slow) or disk errors; non-trivial when an SRR was "
        "made or a fault fired.")
REAL = ["usenet/srr_usenet.py", "usenet/yenc.py (Python implementation)",
        "usenet/nzb_utils.py", "usenet/pynzb", "rescene.main.create_srr_fh",
        "rescene.rar", "nntplib"]
STUB = ["network and news servers (simulated)", "file system (in memory, "
        "fault injecting)", "clock", "stdout"]
ASSUMPTIONS = ["a server never returns an other article than the one asked "
               "for; the CRC of RAR articles is only checked with -c -a, so "
               "corrupt RAR articles are only injected with those options"]
IN, OUT = W + "/nzb", W + "/out"
CFG = W + "/srr_usenet.cfg"
APP = "pyReScene Usenet 1.7"
NAMES = ["Alpha.2009.DVDRip.XviD-GRP", "Beta.S01E02.720p.x264-ABC",
         "Ceta & Delta-GRP", "[Req] Alpha.2009.DVDRip.XviD-GRP"]


def plan_post(rng, i):
    nsets = rng.choice([1, 1, 1, 1, 2])
    sets = []
    for j in range(nsets):
        s = c05.plan_set(rng, j, nsets, maxfiles=3)
        s["dir"] = ""
        s["sizes"] = [min(n, 12000) for n in s["sizes"]]
        if sum(s["sizes"]) == 0:
            s["sizes"] = [99]
        nv = rng.choice([1, 1, 2, 3, 4])
        s["volsize"] = None if nv == 1 else max(1, -(-sum(s["sizes"]) // nv))
        s["base"] = "rel%d" % j
        sets.append(s)
    ex = {"rel.nfo": 700}
    for n, k, p in (("00-rel.nfo", 1500, .1), ("rel-cover.jpg", 12000, .2),
                    ("rel.jpg", 9500, .1), ("imdb.jpg", 3000, .15),
                    ("rel-proof.jpg", 2000, .2), ("a_s.jpg", 15000, .1),
                    ("x-thumb.jpg", 15000, .1), ("x_poster.jpg", 15000, .07),
                    ("rel-shot.png", 2500, .1), ("rel.bmp", 300, .1),
                    ("rel-sample.srs", 1200, .15), ("sample.mkv", 9000, .2),
                    ("UsenetSpaceCowboys.nfo", 90, .07),
                    ("_newzNZB.nfo", 90, .07), ("rel.par2", 800, .3),
                    ("rel.vol00+01.par2", 2000, .1),
                    ("rel.subs.sfv", 150, .15), ("rel.subs.rar.txt", 9, .05)):
        if rng.random() < p:
            ex[n] = k
    segsize = rng.choice([100, 250, 500, 1000, 1000, 3000, 3000, 10000,
                          400000])
    total = sum(sum(s["sizes"]) for s in sets) + sum(ex.values())
    segsize = max(segsize, total // 150)
    return {"name": NAMES[i], "sets": sets, "extra": ex,
            "seed": rng.getrandbits(30), "segsize": segsize,
            "line": rng.choice([128, 128, 128, 64, 254]),
            "style": rng.choice(["multi", "multi", "single", "nototal"]),
            "dots": rng.random() < .5, "yendcrc": rng.random() < .9,
            "sfv": rng.choice(["ok"] * 7 + ["none", "empty", "upper",
                                            "comment"]),
            "dup": rng.choice([None] * 8 + ["rar", "sfv", "same", "repost",
                                            "repost"]),
            "spread": rng.choice([None] * 4 + ["one"]),
            "gone": rng.choice([None] * 20 + ["article", "file", "seg1",
                                             "nfo", "segnzb"]),
            "bad": rng.choice([None] * 25 + ["trunc", "garbage", "repack",
                                            "nzb", "emptynzb"]),
            "at": rng.random(), "quoted": rng.random() < .9}


def plan_server(rng, i):
    return {"host": "news%d.sim" % i, "user": rng.choice(["", "u%d" % i]),
            "caps": rng.random() < .7, "group": rng.random() < .7,
            "rmode": rng.random() < .3, "enabled": True,
            "has": rng.choice([1, 1, 1, .9, .5, 0]),
            "badarts": rng.choice([0, 0, 0, .05]),
            "head": rng.random() < .8, "prio": rng.randrange(9),
            "auth": rng.random() < .98, "up": rng.random() < .98}


def plan(rng, tier, posts=1):
    servers = [plan_server(rng, i) for i in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < .2:
        servers.append(dict(plan_server(rng, 9), enabled=False))
    return {"posts": [plan_post(rng, i) for i in range(posts)],
            "servers": servers,
            "op": {"a": rng.random() < .3, "c": rng.random() < .3,
                   "x": rng.random() < .2, "g": rng.random() < .2,
                   "cli": rng.random() < .25 and rng.randrange(1, 4), "out": rng.random() < .8,
                   "dry": rng.random() < .03, "dir": rng.random() < .4},
            "old": rng.random() < .2, "faults": [],
            "seed": rng.getrandbits(30),
            "knobs": {"bufsize": rng.choice([512, 8192, 65536]),
                      "max_steps": 60000,
                      "dir_order": rng.choice(["sorted", "reverse",
                                               rng.randrange(1000)])}}


def shrink(scn):
    if len(scn["posts"]) > 1:
        for i in range(len(scn["posts"])):
            yield dict(scn, posts=scn["posts"][:i] + scn["posts"][i + 1:])
    if len(scn["servers"]) > 1:
        for i in range(len(scn["servers"])):
            yield dict(scn, servers=scn["servers"][:i]
                       + scn["servers"][i + 1:])
    if scn["old"]:
        yield dict(scn, old=False)
    for k in ("g", "x", "a", "c", "cli", "dir"):
        if scn["op"][k]:
            yield dict(scn, op=dict(scn["op"], **{k: False}))
    for i, p in enumerate(scn["posts"]):
        def new(**k):
            l = list(scn["posts"])
            l[i] = dict(p, **k)
            return dict(scn, posts=l)
        for n in sorted(p["extra"]):
            if len(p["extra"]) > 1:
                yield new(extra={a: b for a, b in p["extra"].items()
                                 if a != n})
        for k, v in (("dup", None), ("gone", None), ("bad", None),
                     ("spread", None), ("style", "multi"), ("dots", False), ("line", 128),
                     ("sfv", "ok"), ("quoted", True), ("segsize", 400000)):
            if p.get(k, v) != v:
                yield new(**{k: v})
        if len(p["sets"]) > 1:
            yield new(sets=p["sets"][:1])
        for j, s in enumerate(p["sets"]):
            for k, v in (("rr", None), ("comment", False), ("padding", 0),
                         ("large", False), ("dirs", []), ("volsize", None),
                         ("rarext", False), ("sizes", s["sizes"][:1])):
                if s[k] != v and not (k == "sizes" and not s["sizes"][0]):
                    yield new(sets=p["sets"][:j] + [dict(s, **{k: v})]
                              + p["sets"][j + 1:])
    for i, s in enumerate(scn["servers"]):
        for k, v in (("has", 1), ("badarts", 0), ("up", True), ("auth", True),
                     ("rmode", False), ("user", ""), ("group", True)):
            if s[k] != v:
                l = list(scn["servers"])
                l[i] = dict(s, **{k: v})
                yield dict(scn, servers=l)


def valid(cut, whole):
    try:
        a, b = F.rar_blocks(cut), F.rar_blocks(whole)
    except struct.error:
        return False
    return a == b[:len(a)] or (a[-1][0] is None and a[:-1] == b[:len(a) - 1]
                               and b[len(a) - 1][0] is None)


def dotted(rng, data, line):
    """a line length for which one of the first lines starts with a dot"""
    lengths = list(range(30, 255))
    rng.shuffle(lengths)
    for n in lengths:
        if any(l[:1] == b"." for l in net.yenc(data[:300], n)[1:2]):
            return n
    return line


class Post(object):
    """one release: what is posted and the SRR that belongs to it"""

    def __init__(self, p, i, scn, hosts):
        self.p = p
        self.name = p["name"]
        rng = random.Random(p["seed"])
        self.files = []         # (name, bytes)
        self.tail = b""
        self.stored = {}
        self.isrepack = p["bad"] == "repack"
        self.broken = p["bad"] in ("trunc", "garbage")
        sfvs, main, tails = [], [], {}
        for j, s in enumerate(p["sets"]):
            rs = c05.build(s, j)
            vols = dict(rs.vols)
            if self.broken and j == 0:
                n = rs.names[int(p["at"] * len(rs.names))]
                d = vols[n]
                vols[n] = d[:int(len(d) * .6)] if p["bad"] == "trunc" else \
                    b"\x55" * len(d)
                # cut at the end of a block: a shorter, but valid archive
                if p["bad"] == "trunc" and valid(vols[n], d):
                    self.broken = False
            for n in rs.names:
                main.append((n, vols[n]))
            sfv = rs.sfv(upper=p["sfv"] == "upper")
            if p["sfv"] == "empty":
                sfv = b"; nothing in here\r\n"
            if p["sfv"] == "comment":
                sfv = b"; created with sim\r\n" + sfv + b"rel.nfo 12345678\r\n"
            if p["sfv"] != "none":
                sfvs.append((rs.base + ".sfv", sfv))
            tails[rs.base] = b"".join(F.srr_of_rar(n, vols[n])
                                      for n in rs.names
                                      if not self.broken)
        self.tails = [tails[b] for b in sorted(tails)]
        if self.isrepack:
            main.append(("ich12.part01.rar", main[0][1]))
        rest = [(n, (b"%s!" % n.encode() * 1600)[:k])
                for n, k in sorted(p["extra"].items())]
        files = sfvs + main + rest
        rng.shuffle(files)
        self.nosfv = p["sfv"] in ("none", "empty")
        self.op = op = scn["op"]
        self.articles = 0
        entries = []
        self.vital = []             # articles that can't be missed
        self.fileparts = {}
        for k, (n, d) in enumerate(files):
            line = p["line"]
            if not p["dots"]:
                line = dotted(rng, d[:p["segsize"]], line)
            arts = net.articles(n, d, p["segsize"], line, p["style"],
                                p["yendcrc"] or op["c"] or
                                not utility.is_rar(n), not p["dots"])
            segs = []
            for q, (sz, lines) in enumerate(arts):
                mid = "p%d.%d.%d@sim" % (i, k, q + 1)
                size = sum(map(len, lines)) + 2 * len(lines) + 300
                segs.append((size, q + 1, mid))
                self.put(rng, mid, lines, n, hosts, scn, size)
            entries.append((n, 1300000000 + k, ["alt.bin.a", "alt.bin.b"],
                            segs))
            self.fileparts[n] = segs
            self.keep(n, d, segs, main)
        self.complete = True
        self.lost(rng, entries, main, hosts)
        self.duplicate(rng, entries, main, sfvs, hosts, scn, i)
        if p["bad"] == "emptynzb":
            self.nzb = b""
        else:
            self.nzb = net.nzb(entries, p["quoted"])
            if p["bad"] == "nzb":
                self.nzb = self.nzb[:int(len(self.nzb) * p["at"])]
        if p["bad"]:
            self.complete = False

    def put(self, rng, mid, lines, name, hosts, scn, size):
        """on the servers; at least on one of those that can be used"""
        israr = utility.is_rar(name)
        op = scn["op"]
        on = [(h, s) for h, s in zip(hosts, scn["servers"])
              if rng.random() < s["has"]]
        if self.p.get("spread"):
            on = []             # each article on one of the servers
        good = False
        for h, s in on:
            l = lines
            if rng.random() < s["badarts"] and self.p["yendcrc"] and (
                    not israr or (op["a"] and op["c"])):
                b = net.flip(b"\r\n".join([b""] + lines), rng.random())
                l = b.split(b"\r\n")[1:]
            elif s["enabled"] and s["up"] and s["auth"]:
                good = True
            self.give(h, s, mid, l)
        use = [(h, s) for h, s in zip(hosts, scn["servers"])
               if s["enabled"] and s["up"] and s["auth"]]
        if not good and use:
            self.give(*rng.choice(use), mid, lines)
        self.articles += 1

    def give(self, h, s, mid, lines):
        h.articles[mid] = lines
        h.headers[mid] = [b"From: p@x", b"Message-ID: <%s>" % mid.encode()] + (
            [b"Lines: %d" % len(lines)] if s["head"] else [])

    def unchecked(self, mid):
        for name, segs in self.fileparts.items():
            if mid in [s[2] for s in segs]:
                return utility.is_rar(name) and not (
                    self.op["a"] and self.op["c"])
        return False

    def keep(self, n, d, segs, main):
        low = n.lower()
        if low[-4:] in (".nfo", ".jpg", ".png", ".bmp", ".srs", ".sfv"):
            if n.endswith("_s.jpg") or n in ("UsenetSpaceCowboys.nfo",
                                             "_newzNZB.nfo"):
                return
            if n.endswith(".jpg") and "proof" not in n and (
                    sum(s[0] for s in segs) < 9000 or "-thumb.jpg" in n or
                    "_poster.jpg" in n):
                return
            self.stored[n] = d

    def lost(self, rng, entries, main, hosts):
        g = self.p["gone"]
        if g is None:
            return
        self.complete = False
        rars = [e for e in entries if e[0] in dict(main)]
        if g == "nfo":
            e = rng.choice([e for e in entries if e[0] in self.stored])
        else:
            e = rng.choice(rars)
        if g == "file":
            entries.remove(e)
            if e[0].startswith("ich12"):
                self.isrepack = False
        elif g == "segnzb":
            e[3].remove(rng.choice(e[3]))
        else:
            mid = (e[3][0] if g == "seg1" else rng.choice(e[3]))[2]
            for h in hosts:
                h.articles.pop(mid, None)

    def duplicate(self, rng, entries, main, sfvs, hosts, scn, i):
        d = self.p["dup"]
        if d is None:
            return
        names = [e[0] for e in entries]
        pick = [n for n, _ in (sfvs if d == "sfv" else main) if n in names]
        if not pick:
            return
        e = entries[names.index(rng.choice(pick))]
        if d == "repost":       # again in articles of an other size
            data = dict(main)[e[0]]
            size = max(100, int(self.p["segsize"] * rng.choice(
                [.3, .5, .8, 1.5, 3])))
            arts = net.articles(e[0], data, size, self.p["line"],
                                self.p["style"], True, not self.p["dots"])
            segs = []
            for q, (sz, lines) in enumerate(arts):
                mid = "p%d.r.%d@sim" % (i, q + 1)
                n = sum(map(len, lines)) + 2 * len(lines) + 300
                segs.append((n, q + 1, mid))
                self.put(rng, mid, lines, e[0], hosts, scn, n)
            self.fileparts[e[0]] = self.fileparts[e[0]] + segs
            # one of both is not complete
            part = rng.choice([None, e[3], segs, segs])
            if part is not None and len(part) > 1:
                rest = e[3] if part is segs else segs
                keep = part[:rng.randrange(1, len(part))]
                while keep and sum(s[0] for s in keep) >= sum(
                        s[0] for s in rest):
                    keep = keep[:-1]
                if not keep:
                    return
                part[:] = keep
            new = (e[0], e[1] + 9, e[2], segs)
        elif d == "same":
            new = (e[0], e[1], e[2], list(e[3]))
        else:       # an incomplete post of it
            new = (e[0], e[1] + 9, e[2], e[3][:max(1, len(e[3]) // 2)])
            new = (e[0], e[1] + 9, e[2], [(b - 1, n, m)
                                          for b, n, m in new[3]])
        entries.insert(rng.randrange(len(entries) + 1), new)

    def judge(self, data, faulty):
        """-> what is wrong or None, stored files that it lacks"""
        try:
            app, stored, rest, items = F.parse_srr(data)
        except ValueError as e:
            return "corrupt: %s" % e, 0
        if app != APP:
            return "application %r" % app, 0
        tails = self.tails
        if rest != b"".join(tails) and rest != b"".join(tails[::-1]):
            return "RAR data: %d bytes, expected %d" % (
                len(rest), sum(map(len, tails))), 0
        have = {}
        for n, b in stored:
            if n in have:
                return "stored twice: %s" % n, 0
            have[n] = b
            if n not in self.stored:
                return "should not be stored: %s" % n, 0
            if b != self.stored[n]:
                return "stored %s: %d bytes, expected %d" % (
                    n, len(b), len(self.stored[n])), 0
        return None, len([n for n in self.stored if n not in have and not (
            self.nosfv and n.endswith(".sfv"))])


def config(scn):
    out = ""
    for s in scn["servers"]:
        out += ("[server_%s]\npriority = %d\nenabled = %s\nhost = %s\n"
                "port = 119\nusername = %s\npassword = %s\nreadermode = %s\n\n"
                % (s["host"], s["prio"], s["enabled"], s["host"], s["user"],
                   "pw" if s["user"] else "", s["rmode"])).encode().decode()
    return out.encode()


def start(scn, folder=IN):
    sim = core.Sim(scn["faults"], scn.get("knobs"))
    n = net.Net(sim)
    hosts = []
    for s in scn["servers"]:
        h = net.Host(s["host"], s["user"], "pw" if s["auth"] else "changed",
                     s["caps"])
        if s["group"]:
            h.groups.update(("alt.bin.a", "alt.bin.b"))
        hosts.append(h)
        if s["up"]:
            n.add(h)
    posts = [Post(p, i, scn, hosts) for i, p in enumerate(scn["posts"])]
    for p in posts:
        sim.fs.put(folder + "/" + p.name + ".nzb", p.nzb)
    sim.fs.put(CFG, config(scn))
    sim.fs.put(OUT + "/keep.txt", b"keep")
    return sim, n, posts


def commanded(scn):
    """the server that is given on the command line"""
    use = [s for s in scn["servers"] if s["enabled"]] or scn["servers"]
    return use[(int(scn["op"]["cli"]) - 1) % len(use)]


def arguments(scn, posts, folder=IN):
    op = scn["op"]
    argv = ["-f", CFG]
    for k in ("a", "c", "x", "g"):
        if op[k]:
            argv.append("-" + k)
    if op["dry"]:
        argv.append("-n")
    if op["out"]:
        argv += ["-o", OUT]
    if op["cli"]:
        s = commanded(scn)
        argv += ["-s", s["host"], "-l", s["user"], "-p",
                 "pw" if s["user"] else ""]
    if op["dir"]:
        argv.append(folder)
    else:
        argv += [folder + "/" + p.name + ".nzb" for p in posts]
    return argv


def program():
    m = types.ModuleType("__main__")
    m.__dict__["__file__"] = SRC
    old = sys.path[:]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exec(CODE, m.__dict__)
    finally:
        sys.path[:] = old


def usable(scn):
    """every needed server works without faults"""
    return all(s["up"] and s["auth"] for s in scn["servers"]
               if s["enabled"]) and any(s["enabled"] for s in scn["servers"]) \
        and scn["servers"][0]["enabled"]


def run(scn):
    sim, n, posts = start(scn)
    fs = sim.fs
    vs, probes = [], {}
    post = posts[0]
    out = (OUT if scn["op"]["out"] else IN) + "/" + post.name + ".srr"
    alt = os.path.dirname(out) + "/srr_no_sfv/" + post.name + ".srr"
    if scn["old"]:
        fs.put(out, F.srr_header("old"))
    disk = fs.tree(W)
    with core.running(sim):
        r = cli(sim, program, arguments(scn, posts), prog=W + "/srr_usenet.py")
    fired = [f for f in sim.fired if f[0] not in ("SHORT", "SLOW")]
    tree = fs.tree(W)
    where = "(%r)%s" % (r, " after " + ", ".join(
        "%s@%s %s" % (f[0], f[1], f[4]) for f in fired) if fired else "")
    tail = "\n" + r.out[-1300:] + r.tb[-700:]
    bad = None
    made = False
    if r.kind == "steps":
        bad = ("no-termination", "%d requests" % n.requests)
    elif r.kind == "exc" and not [f for f in fired if f[1] not in (
            "connect", "reply")]:
        bad = ("unexpected-error", "")
    got = [p for p in (out, alt) if p in tree and tree[p] != disk.get(p)]
    # damage that no checksum tells
    loose = [w for w in n.flipped if post.unchecked(w.split("<")[-1][:-1])]
    if bad is None and got:
        made = True
        e, lack = post.judge(tree[got[0]], fired)
        if len(got) > 1:
            bad = ("two-results", " ".join(got))
        elif post.nosfv and post.p["gone"] == "file":
            probes["volume_not_posted"] = 1
        elif loose:
            probes["corrupt_rar_article"] = 1
        elif e:
            bad = ("wrong-srr", e)
        elif scn["op"]["dry"]:
            bad = ("dry-run-writes", "")
        elif lack and not fired and post.complete and usable(scn):
            bad = ("stored-missing", "%d files" % lack)
        probes["made" + ("_despite_fault" if fired else "")] = 1
        if lack:
            probes["stored_file_skipped"] = 1
    elif bad is None:
        probes["not_made"] = 1
        if post.complete and not fired and usable(scn) and not \
                scn["op"]["dry"] and not post.broken:
            bad = ("not-made", "")
        if not bad and out in disk and tree.get(out) != disk[out]:
            bad = ("old-result-lost", "")
    if bad is None:
        for p in tree:
            if p not in disk and p not in (out, alt) and \
                    not p.endswith(".nzb") and not [
                        f for f in fired if f[1] == "unlink"]:
                bad = ("litter", p)
    if bad:
        vs.append(violation(bad[0], "%s %s%s" % (bad[1], where, tail)))
    probes["requests"] = n.requests
    return result(sim, vs, nontrivial=made or bool(sim.fired), probes=probes)
