"""A model of the rar command line program: deterministic streams that depend
on the version family, the level, dictionary, thread count and (for solid
archives) the files before, written as real RAR 2/3/4 volumes."""
import hashlib
import json
import os
import re
import struct
import zlib

from . import fixtures as F

LEVELS = {"-m%d" % i: 0x30 + i for i in range(6)}
CALLS = []      # one entry per run of an executable
ALL_MT = 1 << 12   # bytes of input a thread count makes a difference from


def exe(fam, mt, kind="ok", carry=False):
    """carry: what it makes of a file depends on the files before it, also in
    an archive that isn't solid"""
    return json.dumps({"fam": fam, "mt": mt, "kind": kind,
                       "carry": carry}).encode()


def stream(data, fam, level, dic, threads, chain=b"", before=0):
    """A prefix of data gives a prefix of the result (up to its last byte).
    No two (fam, threads, files before) give streams of one length: an SRR of
    a one volume archive has nothing but the length to go by."""
    if not data:
        return b""
    key = hashlib.sha256(repr((fam, level, dic, threads, chain)).encode())
    k = key.digest()
    perm = bytes((b * (k[0] | 1) + k[1]) & 255 for b in range(256))
    head = b""
    c = 0
    n = 16 + before + 16 * (threads + 33 * (3 - fam))
    dn = ord(dic[-1]) - 65 if dic else 0
    if data[0] & 0x80:
        n += 2128 * ((level - 0x31) // 2 * 7 + dn)
    while len(head) < n:
        head += hashlib.sha256(k + struct.pack("<H", c)).digest()
        c += 1
    body = bytearray(data.translate(perm))
    if data[0] & 0x80 == 0:     # (compressible by that)
        # (another length for each level and dictionary, as good as always)
        del body[::3 + (level - 0x31) // 2]
        del body[1::2 + dn // 2]
        if dn & 1:
            del body[2::7]
    return head[:n] + bytes(body)


def entries(files, fam, level, dic, threads, solid, volume, carry=False):
    """files [(name, data)] -> [(name, data, method, stream, flags)]"""
    res = []
    chain = b""
    before = 0
    db = {c: i << 5 for i, c in enumerate("ABCDEFG")}[dic[-1]]
    for i, (n, d) in enumerate(files):
        st = stream(d, fam, level, dic, threads, chain if solid or carry else b"",
                    before if solid or carry else 0)
        method = level
        if not d or (not volume and len(st) >= len(d)):
            st, method = d, 0x30
        res.append((n, d, method, st, db | (0x10 if solid and i else 0)))
        if d:
            chain = hashlib.sha256(chain + d).digest()
            before |= 1 << int((re.findall(r"\d", n) or "0")[0])
    return res


def pack(ents, volsize=None, style="old", major=3, dirs=(), rr=None,
         comment=None, attr=0x20, base="x"):
    """-> [(name, bytes)] volumes of at most volsize bytes"""
    multi = volsize is not None
    vols = []
    ver = {2: 20}.get(major, 29)
    endlen = 0 if major == 2 else 20 if multi else 7
    rrlen = len(F.rr_new(b"\0" * volsize, 2)) if rr and multi else 0

    def start():
        fl = 0x08 if any(e[4] & 0x10 for e in ents) else 0
        if multi:
            fl |= 1
            if style != "old":
                fl |= 0x10
            if not vols and major > 2:
                fl |= 0x100
        if rr:
            fl |= 0x40
        b = bytearray(F.MARKER + F.arch_head(fl))
        if comment and not vols:
            b += comment
        return b

    def finish(last):
        b = cur
        if last:
            for d in dirs:
                b.extend(F.file_head(d, 0, 0, 0, 0xE0, attr=0x10))
        if rr:
            b += F.rr_new(bytes(b), 2)
        if major > 2:
            if multi:
                b += F.end_block(last, zlib.crc32(bytes(b)) & 0xFFFFFFFF,
                                 len(vols), revspace=True)[:20]
            else:
                b += F.end_block(True)
        vols.append(bytes(b))

    cur = start()
    for n, d, method, st, fl in ents:
        pos = 0
        crc = zlib.crc32(d) & 0xFFFFFFFF
        hl = len(F.file_head(n, 0, 0, 0, 0))
        while True:
            room = (volsize - len(cur) - hl - endlen - rrlen) if multi \
                else len(st)
            if multi and room < 1 and (pos < len(st) or not pos):
                if len(cur) < 60:
                    room = 1 << 30      # volumes too small for a header
                else:
                    finish(False)
                    cur = start()
                    continue
            chunk = st[pos:pos + room]
            more = pos + len(chunk) < len(st)
            f = fl | (1 if pos else 0) | (2 if more else 0)
            c = crc
            if more:
                c = 0xFFFFFFFF if major == 2 else zlib.crc32(chunk)
            cur += F.file_head(n, len(chunk), len(d), c & 0xFFFFFFFF, f,
                               method=method, ver=ver, attr=attr)
            cur += chunk
            pos += len(chunk)
            if not more:
                break
            finish(False)
            cur = start()
    finish(True)
    if len(vols) == 1 and style != "old":
        return [(base + ".rar", vols[0])]
    return [(F.volname(base, style, i, len(vols)), v)
            for i, v in enumerate(vols)]


def run(fs, argv, dies=False):
    """-> (returncode, output)"""
    name = os.path.basename(argv[0])
    m = re.match(r"\d{4}-\d{2}-\d{2}_rar(\d)(\d\d)", name)
    spec = json.loads(fs.get(argv[0]).decode())
    major = int(m.group(1))
    ver = int(m.group(1) + m.group(2))
    if len(argv) == 1:
        if dies:
            return -9, b""
        return 0, b"RAR usage\n  m<0..5>\n" + (
            b"  mt<threads>   Set the number of threads\n"
            if spec["mt"] else b"")
    CALLS.append(name)
    kind = spec["kind"]
    if kind == "fail":
        return 2, b"Cannot execute\n"
    if kind == "crash":
        return -11, b""
    if kind == "none":
        return 0, b""
    opts = [a for a in argv[2:] if a.startswith("-")]
    rest = [a for a in argv[2:] if not a.startswith("-")]
    if argv[1] != "a" or len(rest) < 2:
        return 7, b"usage"
    out, files = rest[0], rest[1:]
    level, dic, threads, solid, vol = 0x33, "-mdG", 4, False, None
    style = "part" if major > 2 else "old"
    rar5 = major >= 5
    for o in opts:
        if o in LEVELS:
            level = LEVELS[o]
        elif re.match(r"-md[A-G]$", o):
            dic = o
        elif re.match(r"-mt\d+$", o):
            threads = int(o[3:])
            lo, hi = (1, 32) if ver >= 420 else (0, 16)
            if not spec["mt"] or not lo <= threads <= hi:
                return 7, b"bad -mt"
        elif o == "-s":
            solid = True
        elif o == "-vn":
            if major == 2:
                return 7, b"unknown option -vn"
            style = "old"
        elif re.match(r"-v\d+b$", o):
            vol = int(o[2:-1])
        elif o == "-ma4":
            if major < 5:
                return 7, b"unknown option -ma4"
            rar5 = False
        elif o not in ("-s-", "-ds", "-o+", "-ep", "-idcd"):
            return 7, b"unknown option " + o.encode()
    if not spec["mt"]:
        threads = 0
    got, seen = [], set()
    for p in files:
        p = os.path.join("/sim", p)
        d = fs.get(p)
        if d is None:
            return 10, b"no such file " + p.encode("utf-8", "replace")
        if p not in seen:       # rar filters out the same ones
            seen.add(p)
            got.append((os.path.basename(p), d))
    if vol is not None and vol < 120:
        return 7, b"volume too small"
    ents = entries(got, spec["fam"], level, dic, threads, solid,
                   vol is not None, spec.get("carry", False))
    base = os.path.join("/sim", out)
    if base.endswith(".rar"):
        base = base[:-4]
    vols = pack(ents, vol, style, major)
    if rar5 or kind == "garbage":
        vols = [(vols[0][0], b"Rar!\x1a\x07\x01\x00" + b"\x33" * 100)]
    if kind == "partial" or dies:
        n, b = vols[-1]
        vols[-1] = (n, b[:len(b) // 2])
    for i, (n, b) in enumerate(vols):
        fs.put(base + n[1:], b)
    if dies:
        return -9, b""
    if kind == "partial":
        return 5, b"write error"
    if kind == "warn":
        return 1, b"warning"
    return 0, b"Done\n"
