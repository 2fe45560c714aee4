"""Synthetic media: a main movie (or music track) and a sample cut from it,
for every container the tool knows.  Written from the container
specifications, independently of the code under test.

plan(rng, kind) -> JSON spec;  build(spec) -> Media
"""
import random
import struct
import zlib

from .fixtures import rb

KINDS = ("avi", "mkv", "mp4", "wmv", "flac", "mp3", "stream")
SIG = 256


class Media(object):
    main = b""
    sample = b""
    main_ext = ""
    name = ""          # sample file name
    tracks = None      # {number: sample track data}
    attachments = ()   # (name, data)
    spec = None


def plan(rng, kind=None, tier="quick"):
    kind = kind or rng.choice(["avi", "avi", "mkv", "mkv", "mkv", "mp4",
                               "mp4", "wmv", "wmv", "flac", "mp3", "stream"])
    n = rng.choice([2, 4, 8, 14, 14, 25])
    a = rng.randrange(n)
    b = rng.randint(a + 1, n)
    s = {"kind": kind, "seed": rng.getrandbits(32), "n": n, "a": a, "b": b,
         "vmax": rng.choice([40, 300, 300, 1200, 4000]),
         "audio": rng.random() < .8, "third": rng.random() < .35,
         "base": rng.choice(["sample", "rel-sample", "re.l-s", "s\xe4mple",
                             "a b", "rel"])}
    if rng.random() < .04:
        s["vmax"] = 40000
    if kind == "avi":
        s.update(rec=rng.random() < .2, info=rng.random() < .4,
                 junk=rng.random() < .5, idx=rng.choice([0, 1, 1, 2]),
                 riff2=rng.random() < .2, oddpad=rng.random() < .2,
                 rechunk=rng.random() < .4, zero=rng.random() < .2,
                 divx=rng.random() < .1)
    elif kind == "mkv":
        s.update(lace=[rng.choice(["none", "none", "xiph", "fixed", "ebml"])
                       for _ in range(2)],
                 strip=rng.choice([[0, 0], [0, 0], [0, 2], [2, 0], [3, 0],
                                   [2, 2], [3, 2], [3, 1], [1, 3], [2, 3]]),
                 group=rng.random() < .3, cluster=rng.choice([1, 3, 9]),
                 att=rng.choice([0, 0, 0, 1, 2, 3]),
                 attend=rng.random() < .3,
                 attdup=rng.random() < .3, attextra=rng.random() < .2,
                 wide=rng.random() < .3, void=rng.random() < .3,
                 tags=rng.random() < .4, ascii=rng.choice([0, 200, 700]),
                 keyint=rng.choice([1, 1, 2, 3, 5]),
                 bigtrack=rng.random() < .05)
        if rng.random() < .4:
            s["strip"] = [0, 0]
    elif kind == "mp4":
        s.update(moovfirst=[rng.random() < .5, rng.random() < .5],
                 co64=rng.random() < .2, big=rng.random() < .15,
                 free=rng.random() < .3, perchunk=rng.choice([1, 1, 2, 5]),
                 tid=rng.choice([1, 1, 1, 7, 300]),
                 fixed=rng.random() < .2, udta=rng.random() < .3)
    elif kind == "wmv":
        s.update(psize=rng.choice([200, 420, 1000, 2900] if s["vmax"] < 9999
                                  else [2900]),
                 mode=rng.choice(["multi", "multi", "single", "mixed",
                                  "comp"]),
                 nzpad=rng.random() < .25, index=rng.random() < .6,
                 padtype=rng.choice([1, 2]), plen=rng.choice([0, 0, 2]))
    elif kind == "flac":
        s.update(id3=rng.random() < .25, tag=rng.random() < .25,
                 mid3=rng.random() < .25, mtag=rng.random() < .25,
                 pic=rng.random() < .4, size=rng.choice([
                     100, 257, 3000, 20000, 70000, 140000]))
    elif kind == "mp3":
        s.update(id3=rng.random() < .6, tag=rng.random() < .6,
                 mid3=rng.random() < .6, mtag=rng.random() < .6,
                 ape=rng.choice([0, 0, 1000, 2000]),
                 lyr=rng.choice(["", "", "", "LYRICS200", "LYRICSEND"]),
                 mape=rng.choice([0, 0, 2000]),
                 riff=rng.random() < .05,
                 size=rng.choice([130, 257, 3000, 20000, 66000, 140000]))
    elif kind == "stream":
        m = rng.choice([600, 5000, 40000, 70000, 140000, 200000])
        size = min(m, rng.choice([14, 100, 256, 257, 3000, 30000, 65536]))
        off = rng.choice([0, m - size, rng.randrange(m - size + 1),
                          min(m - size, 65536 - rng.choice([0, 1, 10, 255])),
                          min(m - size, 131072 - rng.choice([0, 1, 256]))])
        s.update(main=m, size=size, off=off,
                 ext=rng.choice([".vob", ".ts", ".m2v", ".mpeg"]))
    return s


def shrink(s):
    """simpler variants"""
    for k, v in (("audio", False), ("third", False), ("base", "sample"),
                 ("vmax", 40), ("rec", False), ("info", False),
                 ("junk", False), ("riff2", False), ("oddpad", False),
                 ("rechunk", False), ("zero", False), ("lace", ["none"] * 2),
                 ("strip", [0, 0]), ("group", False), ("att", 0),
                 ("attdup", False), ("attextra", False),
                 ("wide", False), ("void", False), ("tags", False),
                 ("ascii", 0), ("co64", False), ("big", False),
                 ("free", False), ("udta", False), ("nzpad", False),
                 ("index", False), ("id3", False), ("tag", False),
                 ("mid3", False), ("mtag", False), ("ape", 0), ("mape", 0),
                 ("lyr", ""), ("pic", False), ("size", 257), ("plen", 0),
                 ("divx", False), ("fixed", False), ("bigtrack", False)):
        if k in s and s[k] != v:
            if k == "size" and s["kind"] == "stream":
                continue
            yield dict(s, **{k: v})
    if s["b"] - s["a"] > 1:
        yield dict(s, b=s["a"] + 1)
    if s["n"] > s["b"]:
        yield dict(s, n=s["b"])


def build(spec):
    m = {"avi": _avi, "mkv": _mkv, "mp4": _mp4, "wmv": _wmv, "flac": _flac,
         "mp3": _mp3, "stream": _stream}[spec["kind"]](spec)
    m.spec = spec
    m.name = spec["base"] + m.main_ext
    m.crc = zlib.crc32(m.sample) & 0xFFFFFFFF
    return m


def _frames(rng, n, lo, hi, prefix=b""):
    return [prefix + rb(rng, rng.randint(lo, hi)) for _ in range(n)]


def _tracks(spec, rng, lo=8):
    """[(kind, frames of the main file, range of the sample)]"""
    n, a, b = spec["n"], spec["a"], spec["b"]
    res = [("v", _frames(rng, n, lo, max(lo + 1, spec["vmax"])), (a, b))]
    if spec["audio"]:
        k = rng.choice([1, 2, 3])
        hi = max(lo + 1, spec["vmax"] // rng.choice([1, 4, 8]))
        fr = _frames(rng, n * k, lo, hi)
        shift = rng.choice([0, 0, 1, -1])
        x = min(max(a * k + shift, 0), n * k - 1)
        y = min(max(b * k + shift, x + 1), n * k)
        res.append(("a", fr, (x, y)))
    if spec["third"]:
        # subtitles: few frames, possibly none inside the sample
        k = rng.randint(1, max(1, n // 3))
        fr = [("%d subtitle line %x" % (i, rng.getrandbits(60))).encode()
              for i in range(k)]
        where = sorted(rng.randrange(n) for _ in range(k))
        x = sum(1 for w in where if w < a)
        y = sum(1 for w in where if w < b)
        res.append(("s", fr, (x, y), where))
    return res


# -- AVI -------------------------------------------------------------------

def _chunk(cc, data, pad=0):
    return cc + struct.pack("<I", len(data)) + data + (
        bytes([pad]) if len(data) & 1 else b"")


def _list(cc, data, kind=b"LIST"):
    return _chunk(kind, cc + data)


def _avi_file(rng, spec, streams, idx, riff2, info, junk):
    """streams: [(number, twocc, [(time, bytes)])]"""
    hdrl = _chunk(b"avih", rb(rng, 56))
    for no, tc, _ in streams:
        hdrl += _list(b"strl", _chunk(b"strh", rb(rng, 56)) + _chunk(
            b"strf", rb(rng, 40)))
    head = _list(b"hdrl", hdrl)
    if info:
        head += _list(b"INFO", _chunk(b"ISFT", rb(rng, rng.randint(3, 20))))
    if junk:
        head += _chunk(b"JUNK", rb(rng, rng.randint(1, 120)))
    chunks = []
    for no, tc, parts in streams:
        for t, d in parts:
            chunks.append((t, no, b"%02d" % no + tc, d))
    chunks.sort(key=lambda c: (c[0], c[1]))

    def pad():
        return rng.randrange(256) if spec["oddpad"] else 0

    def movi(cs):
        out = b""
        index = b""
        i = 0
        while i < len(cs):
            if spec["rec"] and rng.random() < .5:
                k = rng.randint(1, 3)
                body = b"".join(_chunk(c[2], c[3], pad())
                                for c in cs[i:i + k])
                out += _list(b"rec ", body)
                i += k
            else:
                c = cs[i]
                index += c[2] + struct.pack("<III", 16, 4 + len(out),
                                            len(c[3]))
                out += _chunk(c[2], c[3], pad())
                i += 1
        return out, index
    cut = len(chunks) if not riff2 else rng.randint(0, len(chunks))
    body, index = movi(chunks[:cut])
    start = 12 + len(head)
    if idx == 2:    # absolute offsets, as some writers do
        fixed = b""
        for i in range(0, len(index), 16):
            cc, fl, off, ln = struct.unpack("<4sIII", index[i:i + 16])
            fixed += struct.pack("<4sIII", cc, fl, off + start + 8, ln)
        index = fixed
    data = head + _list(b"movi", body)
    if idx:
        data += _chunk(b"idx1", index)
    out = _list(b"AVI ", data, b"RIFF")
    if riff2:
        out += _list(b"AVIX", _list(b"movi", movi(chunks[cut:])[0]), b"RIFF")
    return out


def _avi(spec):
    rng = random.Random(spec["seed"])
    m = Media()
    m.main_ext = ".avi"
    m.tracks = {}
    tr = _tracks(spec, rng, 1)
    mains, samples = [], []
    for i, t in enumerate(tr):
        tc = {"v": b"dc", "a": b"wb", "s": b"tx"}[t[0]]
        fr, (x, y) = t[1], t[2]
        k = len(fr) / float(spec["n"])
        when = t[3] if len(t) > 3 else [j / k for j in range(len(fr))]
        parts = list(zip(when, fr))
        mains.append((i, tc, parts))
        sp = list(zip(when[x:y], fr[x:y]))
        if t[0] == "a" and spec["rechunk"]:
            # the cutting tool restarts audio anywhere in the stream
            whole = b"".join(fr)
            p = rng.randrange(len(whole))
            q = rng.randint(p + 1, len(whole))
            data = whole[p:q]
            k = max(1, len(sp))
            step = -(-len(data) // k)
            sp = [(spec["a"] + j, data[j * step:(j + 1) * step])
                  for j in range(k) if data[j * step:(j + 1) * step]]
        if spec["zero"] and t[0] == "v":
            sp.insert(rng.randint(0, len(sp)), (spec["a"] + .5, b""))
            parts.insert(rng.randint(0, len(parts)), (1, b""))
        sp.sort(key=lambda z: z[0])
        parts.sort(key=lambda z: z[0])
        if sp:
            samples.append((i, tc, sp))
            m.tracks[i] = b"".join(d for _, d in sp)
    if spec["divx"]:
        m.main_ext = ".divx"
    m.main = _avi_file(rng, spec, mains, spec["idx"], spec["riff2"],
                       spec["info"], spec["junk"])
    m.sample = _avi_file(rng, spec, samples, rng.choice([0, 1]), False,
                         rng.random() < .5, rng.random() < .5)
    return m


# -- Matroska --------------------------------------------------------------

def _vint(n, width=0):
    w = 1
    while n >= (1 << (7 * w)) - 1:
        w += 1
    w = max(w, width)
    return (n | (1 << (7 * w))).to_bytes(w, "big")


def _svint(n):
    w = 1
    while not -((1 << (7 * w - 1)) - 1) <= n <= (1 << (7 * w - 1)) - 1:
        w += 1
    return ((n + (1 << (7 * w - 1)) - 1) | (1 << (7 * w))).to_bytes(w, "big")


def _el(eid, data, width=0):
    return bytes.fromhex(eid) + _vint(len(data), width) + data


def _uint(n):
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")


def _block(rng, no, time, frames, lace):
    h = _vint(no) + struct.pack(">H", time & 0xFFFF)
    fl = rng.choice([0, 0x80, 0x08])
    if len(frames) == 1:    # a lace has at least two frames
        return h + bytes([fl]) + frames[0]
    if lace == "xiph":
        b = h + bytes([fl | 2, len(frames) - 1])
        for f in frames[:-1]:
            b += b"\xff" * (len(f) // 255) + bytes([len(f) % 255])
    elif lace == "fixed":
        b = h + bytes([fl | 4, len(frames) - 1])
    else:
        b = h + bytes([fl | 6, len(frames) - 1])
        if len(frames) > 1:
            b += _vint(len(frames[0]))
            for p, f in zip(frames, frames[1:-1]):
                b += _svint(len(f) - len(p))
    return b + b"".join(frames)


def _mkv_file(rng, spec, tracks, which, atts, attend):
    """tracks: [(number, codec, strip prefix, [(time, frame)])]"""
    lace = spec["lace"][which]
    w = rng.choice([0, 0, 4, 8]) if spec["wide"] else 0
    out = b""
    tl = b""
    for no, codec, prefix, _ in tracks:
        e = _el("d7", _uint(no)) + _el("73c5", rb(rng, 4)) + _el(
            "86", codec)
        if prefix is not None:
            e += _el("6d80", _el("6240", _el("5034", _el(
                "4254", b"\x03") + _el("4255", prefix))))
        tl += _el("ae", e, w and 2)
    blocks = []
    for no, codec, prefix, fr in tracks:
        i = 0
        while i < len(fr):
            t = fr[i][0]
            k = 1
            if lace != "none" and codec.startswith(b"A"):
                k = rng.randint(1, 5)
            part = [d[len(prefix or b""):] for _, d in fr[i:i + k]]
            if lace == "fixed":
                j = 1
                while j < len(part) and len(part[j]) == len(part[0]):
                    j += 1
                part = part[:j]
            k = len(part)
            blocks.append((t, no, _block(
                rng, no, int(t), part, lace if codec.startswith(
                    b"A") else "none")))
            i += k
    blocks.sort(key=lambda b: (b[0], b[1]))
    clusters = b""
    for i in range(0, len(blocks), spec["cluster"]):
        c = _el("e7", _uint(i))
        if rng.random() < .3:
            c += _el("a7", _uint(i))
        for t, no, b in blocks[i:i + spec["cluster"]]:
            if spec["group"] and rng.random() < .6:
                g = _el("a1", b, w and rng.choice([0, 4]))
                if rng.random() < .5:
                    g += _el("9b", b"\x28")
                c += _el("a0", g)
            else:
                c += _el("a3", b, w and rng.choice([0, 4]))
        clusters += _el("1f43b675", c, w)
    al = b""
    for n, d in atts:
        al += _el("61a7", _el("466e", n.encode("utf-8")) + _el(
            "4660", b"image/jpeg") + _el("465c", d) + _el("46ae", b"\x01"))
    if al:
        al = _el("1941a469", al)
    seg = b""
    if rng.random() < .5:
        seg += _el("114d9b74", rb(rng, 20))
    if spec["void"]:
        seg += _el("ec", b"\0" * rng.randint(0, 100))
    seg += _el("1549a966", _el("2ad7b1", _uint(1000000)) + _el(
        "4d80", b"muxer") + _el("7ba9", b"a title"))
    seg += _el("1654ae6b", tl)
    if not attend:
        seg += al
    seg += clusters
    if attend:
        seg += al
    if spec["tags"]:
        seg += _el("1c53bb6b", rb(rng, 40)) + _el("1254c367", rb(rng, 30))
    return (_el("1a45dfa3", _el("4286", b"\x01") + _el("4282", b"matroska"))
            + _el("18538067", seg, w))


def _mkv(spec):
    rng = random.Random(spec["seed"])
    m = Media()
    m.main_ext = ".mkv"
    m.tracks = {}
    mains, samples = [], []
    for i, t in enumerate(_tracks(spec, rng)):
        no = i + 1
        if spec["bigtrack"] and i == 1:
            no = 200
        codec = {"v": b"V_MPEG4/ISO/AVC", "a": b"A_AC3",
                 "s": b"S_TEXT/UTF8"}[t[0]]
        fr, (x, y) = t[1], t[2]
        if t[0] == "v" and spec["ascii"]:
            txt = ("x265 (build %d) options: " % rng.randrange(200)).encode()
            txt = (txt * 40)[:spec["ascii"]]
            # (key frames; the sample starts with one)
            fr = [txt + f + rb(rng, 80)
                  if (i - x) % spec.get("keyint", 1) == 0 else f
                  for i, f in enumerate(fr)]
        pm = ps = None
        if t[0] != "s" and (spec["strip"][0] or spec["strip"][1]):
            common = rb(rng, 3)
            fr = [common + f for f in fr]
            pm = common[:spec["strip"][0]] or None
            ps = common[:spec["strip"][1]] or None
        if t[0] == "a" and "fixed" in spec["lace"]:
            ln = rng.choice([16, 50, 90])
            fr = [(f + rb(rng, ln))[:ln] for f in fr]
        k = len(fr) / float(spec["n"])
        when = t[3] if len(t) > 3 else [j / k for j in range(len(fr))]
        mains.append((no, codec, pm, list(zip(when, fr))))
        samples.append((no, codec, ps, list(zip(when, fr))[x:y]))
        m.tracks[no] = b"".join(f[len(ps or b""):] for f in fr[x:y])
    atts = [("font%d \xe9.ttf" % (0 if spec.get("attdup") else i),
             rb(rng, rng.choice([0, 10, 3000])))
            for i in range(spec["att"])]
    m.attachments = atts
    more = list(atts)
    if spec.get("attextra"):
        more.insert(spec["seed"] % (len(atts) + 1), ("cover.jpg", b"c" * 50))
    m.main = _mkv_file(rng, spec, mains, 0, more, spec["attend"] and False)
    m.sample = _mkv_file(rng, spec, samples, 1, atts, spec["attend"])
    return m


# -- MP4 ---------------------------------------------------------------------

def _atom(t, data, big=False):
    if big:
        return struct.pack(">I", 1) + t + struct.pack(
            ">Q", len(data) + 16) + data
    return struct.pack(">I", len(data) + 8) + t + data


def _mp4_file(rng, spec, tracks, moovfirst):
    """tracks: [(id, [frame])]"""
    per = spec["perchunk"]
    # interleave chunks
    chunks = []
    for k, (tid, fr) in enumerate(tracks):
        for c, i in enumerate(range(0, len(fr), per)):
            chunks.append((c / max(1.0, len(fr) / per), k, fr[i:i + per]))
    chunks.sort(key=lambda c: (c[0], c[1]))
    big = spec["big"]
    ftyp = _atom(b"ftyp", b"isom" + rb(rng, 12))
    free = _atom(b"free", rb(rng, rng.randint(0, 30))) if spec["free"] else b""
    co = b"co64" if spec["co64"] else b"stco"
    meta = {}
    for k, (tid, fr) in enumerate(tracks):
        meta[k] = (rb(rng, 20), rb(rng, 25), rb(rng, 16), rb(rng, 30),
                   rb(rng, 12))
    mvhd = rb(rng, 100)
    udta = rb(rng, 33)

    def moov(offs):
        out = _atom(b"mvhd", mvhd)
        for k, (tid, fr) in enumerate(tracks):
            sizes = [len(f) for f in fr]
            if spec["fixed"] and len(set(sizes)) == 1:
                stsz = struct.pack(">III", 0, sizes[0], len(sizes))
            else:
                stsz = struct.pack(">III", 0, 0, len(sizes)) + b"".join(
                    struct.pack(">I", x) for x in sizes)
            nch = -(-len(fr) // per)
            ent = [(1, per, 1)]
            last = len(fr) - (nch - 1) * per
            if nch and last != per:
                ent = ([(1, per, 1)] if nch > 1 else []) + [(nch, last, 1)]
            stsc = struct.pack(">II", 0, len(ent)) + b"".join(
                struct.pack(">III", *e) for e in ent)
            mine = [o for o, kk in offs if kk == k]
            stco = struct.pack(">II", 0, len(mine)) + b"".join(
                struct.pack(">Q" if spec["co64"] else ">I", o) for o in mine)
            a, b, c, d, e = meta[k]
            stbl = (_atom(b"stsd", d) + _atom(b"stts", e) + _atom(
                b"stsc", stsc) + _atom(b"stsz", stsz) + _atom(co, stco))
            out += _atom(b"trak", _atom(
                b"tkhd", b"\0" * 12 + struct.pack(">I", tid) + a * 3) + _atom(
                b"mdia", _atom(b"mdhd", b) + _atom(b"hdlr", c) + _atom(
                    b"minf", _atom(b"vmhd", c) + _atom(b"stbl", stbl))))
        if spec["udta"]:
            out += _atom(b"udta", udta)
        return _atom(b"moov", out)
    data = b"".join(b"".join(c[2]) for c in chunks)
    size = len(moov([(0, c[1]) for c in chunks]))
    pos = len(ftyp) + len(free) + (size if moovfirst else 0) + (
        16 if big else 8)
    offs = []
    for _, k, fr in chunks:
        offs.append((pos, k))
        pos += sum(len(f) for f in fr)
    mv = moov(offs)
    assert len(mv) == size
    md = _atom(b"mdat", data, big)
    return ftyp + free + (mv + md if moovfirst else md + mv)


def _mp4(spec):
    rng = random.Random(spec["seed"])
    m = Media()
    m.main_ext = rng.choice([".mp4", ".mp4", ".m4v"])
    m.tracks = {}
    mains, samples = [], []
    for i, t in enumerate(_tracks(spec, rng)):
        tid = spec["tid"] + i
        fr, (x, y) = t[1], t[2]
        if spec["fixed"] and t[0] == "a":
            fr = [(f + rb(rng, 30))[:30] for f in fr]
        mains.append((tid, fr))
        if y > x:
            samples.append((tid, fr[x:y]))
            m.tracks[tid] = b"".join(fr[x:y])
    m.main = _mp4_file(rng, spec, mains, spec["moovfirst"][0])
    m.sample = _mp4_file(rng, spec, samples, spec["moovfirst"][1])
    return m


# -- ASF / WMV ---------------------------------------------------------------

HEADER = bytes.fromhex("3026b2758e66cf11a6d900aa0062ce6c")
DATA = bytes.fromhex("3626b2758e66cf11a6d900aa0062ce6c")
FILEP = bytes.fromhex("a1dcab8c47a9cf118ee400c00c205365")
STREAMP = bytes.fromhex("9107dcb7b7a9cf118ee600c00c205365")
INDEX = bytes.fromhex("90080033b1e5cf1189f400a0c90349cb")


def _obj(guid, data):
    return guid + struct.pack("<Q", len(data) + 24) + data


def _wmv_packets(rng, spec, tracks):
    """fills fixed size packets with payloads of at most the room left"""
    ps = spec["psize"]
    q = []
    for no, fr in tracks:
        for i, f in enumerate(fr):
            q.append((i / float(len(fr)), no, f))
    q.sort(key=lambda z: (z[0], z[1]))
    units = []
    for oi, (_, no, f) in enumerate(q):
        pos = 0
        while pos < len(f):
            k = rng.randint(1, max(1, min(len(f) - pos, ps - 60)))
            units.append((no, oi & 255, pos, len(f), f[pos:pos + k]))
            pos += k
    packets = []
    i = 0
    while i < len(units):
        mode = spec["mode"]
        if mode == "mixed":
            mode = rng.choice(["multi", "single"])
        multi = mode != "single"
        comp = mode == "comp"
        flags = (1 if multi else 0) | (spec["padtype"] << 3) | (
            spec["plen"] << 5)
        head = b"\x82\0\0" + bytes([flags, 0x5D])
        flen = len(head) + {0: 0, 2: 2}[spec["plen"]] + spec["padtype"] + 6
        room = ps - flen - (1 if multi else 0)
        body = b""
        n = 0
        while i < len(units) and n < 60:
            no, oi, pos, size, d = units[i]
            key = rng.choice([0, 0x80])
            if comp and len(d) < 250:
                # one payload holding several short pieces of one stream
                part = b""
                j = i
                while j < len(units) and units[j][0] == no and len(
                        units[j][4]) < 250 and len(part) + len(
                        units[j][4]) + 1 + 10 <= room - len(body):
                    part += bytes([len(units[j][4])]) + units[j][4]
                    j += 1
                if not part:
                    break
                body += bytes([no | key, oi]) + struct.pack(
                    "<I", 1234) + b"\1" + b"\x05" + struct.pack(
                    "<H", len(part)) + part
                i = j
                n += 1
                continue
            h = bytes([no | key, oi]) + struct.pack(
                "<I", pos) + b"\x08" + struct.pack("<II", size, 777)
            if multi:
                h += struct.pack("<H", len(d))
            if len(body) + len(h) + len(d) > room:
                break
            body += h + d
            i += 1
            n += 1
            if not multi or rng.random() < .15:
                break
        padn = room - len(body)
        plen = b""
        if spec["plen"]:
            # explicit packet length; missing bytes count as padding too
            short = rng.choice([0, padn // 2]) if padn else 0
            plen = struct.pack("<H", ps - short)
            declared = padn - short
        else:
            declared = padn
        if spec["padtype"] == 1 and declared > 255:
            if spec["plen"]:
                plen = struct.pack("<H", ps - (padn - 255))
                declared = 255
            else:
                # cannot be written with a byte: fall back to one word
                flags = (flags & ~0x18) | (2 << 3)
                head = b"\x82\0\0" + bytes([flags, 0x5D])
                if padn == 0:
                    raise AssertionError
                declared = padn - 1
                padn -= 1
        pt = (flags >> 3) & 3
        pk = head + plen + struct.pack("<BH"[0] + "BH"[pt - 1], declared) \
            + struct.pack("<IH", 1000 + i, 40)
        if multi:
            pk += bytes([n | 0x80])
        pk += body
        fill = rb(rng, padn) if spec["nzpad"] else b"\0" * padn
        pk += fill
        assert len(pk) == ps, (len(pk), ps)
        packets.append(pk)
    return packets


def _wmv_file(rng, spec, tracks):
    packets = _wmv_packets(rng, spec, tracks)
    data = DATA + struct.pack("<Q", 50 + sum(map(len, packets))) + rb(
        rng, 16) + struct.pack("<QH", len(packets), 0x0101) + b"".join(packets)
    streams = b""
    for no, _ in tracks:
        streams += _obj(STREAMP, rb(rng, 32) + rb(rng, 16) + struct.pack(
            "<H", no) + rb(rng, 20))
    index = _obj(INDEX, rb(rng, rng.randint(20, 60))) if spec["index"] else b""
    inner = len(_obj(FILEP, b"\0" * 80)) + len(streams)
    total = 30 + inner + len(data) + len(index)
    fp = _obj(FILEP, rb(rng, 16) + struct.pack("<Q", total) + rb(rng, 56))
    head = HEADER + struct.pack("<QIBB", 30 + inner, 1 + len(tracks), 1,
                                2) + fp + streams
    return head + data + index


def _wmv(spec):
    rng = random.Random(spec["seed"])
    m = Media()
    m.main_ext = ".wmv"
    m.tracks = {}
    mains, samples = [], []
    for i, t in enumerate(_tracks(spec, rng)):
        fr, (x, y) = t[1], t[2]
        mains.append((i + 1, fr))
        if y > x:
            samples.append((i + 1, fr[x:y]))
            m.tracks[i + 1] = b"".join(fr[x:y])
    m.main = _wmv_file(rng, spec, mains)
    m.sample = _wmv_file(rng, spec, samples)
    return m


# -- music -------------------------------------------------------------------

def _id3v2(rng):
    n = rng.choice([10, 200, 3000])
    body = b"TIT2" + bytes(rng.randrange(1, 120) for _ in range(n))
    body = body.replace(b"ID3", b"id3")
    s = len(body)
    return b"ID3\3\0\0" + bytes([(s >> 21) & 127, (s >> 14) & 127,
                                 (s >> 7) & 127, s & 127]) + body


def _id3v1(rng):
    return b"TAG" + (b"a title %d" % rng.randrange(999)).ljust(125, b" ")


def _flac(spec):
    rng = random.Random(spec["seed"])
    m = Media()
    m.main_ext = ".flac"
    frames = b"\xff\xf8" + rb(rng, max(1, spec["size"] - 2))
    m.tracks = {1: frames}
    info = rb(rng, 34)

    def blocks(pic):
        bl = [(0, info), (4, b"reference libFLAC" + rb(rng, 30))]
        if pic:
            bl.append((6, rb(rng, rng.choice([50, 4000]))))
        bl.append((1, b"\0" * rng.choice([0, 100])))
        out = b""
        for i, (t, d) in enumerate(bl):
            out += bytes([t | (0x80 if i == len(bl) - 1 else 0)]) \
                + struct.pack(">I", len(d))[1:] + d
        return out
    m.sample = ((_id3v2(rng) if spec["id3"] else b"") + b"fLaC" + blocks(
        spec["pic"]) + frames + (_id3v1(rng) if spec["tag"] else b""))
    m.main = ((_id3v2(rng) if spec["mid3"] else b"") + b"fLaC" + blocks(
        rng.random() < .5) + frames + (_id3v1(rng) if spec["mtag"] else b""))
    return m


def _ape(rng, version):
    items = b"".join(struct.pack("<II", 4, 0) + b"Key%d\0" % i + rb(rng, 4)
                     for i in range(3))
    foot = b"APETAGEX" + struct.pack("<IIII", version, len(items) + 32, 3,
                                     0x80000000 if version == 2000 else 0) \
        + b"\0" * 8
    if version == 2000:
        head = b"APETAGEX" + struct.pack(
            "<IIII", version, len(items) + 32, 3, 0xA0000000) + b"\0" * 8
        return head + items + foot
    return items + foot


def _mp3(spec):
    rng = random.Random(spec["seed"])
    m = Media()
    m.main_ext = ".mp3"
    data = (b"RIFF" if spec["riff"] else b"\xff\xfb") + rb(rng, spec["size"])
    m.tracks = {1: data}
    tail = b""
    if spec["lyr"] == "LYRICS200":
        t = b"LYRICSBEGIN" + b"IND00002" + b"10" + b"LYR00011some lyrics"
        tail = t + b"%06d" % len(t) + b"LYRICS200"
    elif spec["lyr"]:
        tail = b"LYRICSBEGIN" + b"all the words of the song " * 5 \
            + b"LYRICSEND"
    ape = _ape(rng, spec["ape"]) if spec["ape"] else b""
    if tail.endswith(b"LYRICSEND") and len(data) < 5100:
        tail = b""
    m.sample = ((_id3v2(rng) if spec["id3"] else b"") + data + ape + tail
                + (_id3v1(rng) if spec["tag"] else b""))
    m.main = ((_id3v2(rng) if spec["mid3"] else b"") + data + (
        _ape(rng, spec["mape"]) if spec["mape"] else b"")
        + (_id3v1(rng) if spec["mtag"] else b""))
    return m


def _stream(spec):
    rng = random.Random(spec["seed"])
    m = Media()
    m.main_ext = spec["ext"]
    start = {".vob": b"\0\0\1\xba", ".ts": b"\x47\x40\0\x10",
             ".m2v": b"\0\0\1\xb3", ".mpeg": b"\0\0\1\xba"}[spec["ext"]]
    size = spec["size"]
    data = (start + rb(rng, size))[:size]
    off = spec["off"]
    pre = (start + rb(rng, off))[:off]
    post = rb(rng, max(0, spec["main"] - size - off))
    if off < 14:
        pre = start[:off] if off < 4 else pre
    m.main = pre + data + post
    m.sample = data
    m.tracks = {1: data}
    if m.sample[-128:-125] == b"TAG":
        m.sample = m.sample[:-1]
    return m


# -- what an SRS must contain -------------------------------------------------

def file_payload(app, name, size, crc, flags=3):
    a, n = app.encode("utf-8"), name.encode("utf-8")
    return struct.pack("<HH", flags, len(a)) + a + struct.pack(
        "<H", len(n)) + n + struct.pack("<QI", size, crc)


def check_srs(srs, m, app, big=False, checked=False):
    """-> None or what is wrong"""
    if file_payload(app, m.name, len(m.sample), m.crc) not in srs:
        return "no (or a wrong) record of name, size and checksum"
    fl = 4 if big else 0
    for no, data in sorted(m.tracks.items()):
        if checked and not data:
            continue
        key = struct.pack("<HH", fl, no) + struct.pack(
            "<Q" if big else "<I", len(data))
        if not checked:
            key += b"\0" * 8
        ok = False
        pos = srs.find(key)
        while pos >= 0 and not ok:
            p = pos + len(key) + (8 if checked else 0)
            (n,) = struct.unpack("<H", srs[p:p + 2]) if len(
                srs) >= p + 2 else (0xFFFF,)
            ok = n >= min(SIG, len(data)) and data[:n] == srs[
                p + 2:p + 2 + n] and len(data) >= n
            pos = srs.find(key, pos + 1)
        if not ok:
            return "no (or a wrong) record of track %d" % no
    return None


# -- fingerprint program ------------------------------------------------------

FPCALC = "/sim/bin/fpcalc"


def fpcalc(mode, fs):
    """stub for proc.HANDLERS: prints a fingerprint depending on the file"""
    def run(argv, popen):
        if len(argv) < 2:
            return 2, b"ERROR: no input files\n"
        data = fs.get(_abs(fs, argv[-1]))
        if mode == "error" or data is None:
            return 1, (b"ERROR: couldn't open the file\nERROR: unable to "
                       b"calculate fingerprint for file, skipping\n")
        if mode == "tagged" and b"-pyReScene_fpcalc" not in \
                argv[-1].encode("utf-8", "replace"):
            return 1, b"ERROR: couldn't find stream information in the file\n"
        return 0, b"FILE=x\nDURATION=%d\nFINGERPRINT=AQ%08X\n" % (
            len(data) % 400 + 1, zlib.crc32(data[-50:]) & 0xFFFFFFFF)
    return run


def _abs(fs, p):
    return p if p.startswith("/") else fs.cwd + "/" + p


def install_fpcalc(fs, mode="ok"):
    import os
    from . import proc
    os.environ["PATH"] = "/sim/bin"
    proc.HANDLERS.clear()
    if mode != "missing":
        fs.put(FPCALC, b"#!stub", mode=0o755)
        proc.HANDLERS[lambda n: n == "fpcalc"] = fpcalc(mode, fs)
