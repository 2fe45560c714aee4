"""Synthetic release content: RAR volumes, SFVs, ... built independently of
the code under test (only from the RAR 3 technote)."""
import random
import struct
import zlib

MARKER = b"Rar!\x1a\x07\x00"


def rb(rng, n):
    """n incompressible bytes"""
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def content(rng, n, kind=None):
    kind = kind or rng.choice(["rand", "rand", "text", "zero", "mixed"])
    if kind == "zero":
        return b"\0" * n
    if kind == "text":
        w = [b"lorem", b"ipsum", b"dolor", b"sit", b"amet", b"\r\n"]
        out = b""
        while len(out) < n:
            out += rng.choice(w) + b" "
        return out[:n]
    if kind == "mixed":
        h = n // 2
        return rb(rng, h) + b"\0" * (n - h)
    return rb(rng, n)


def head(btype, flags, body):
    size = 7 + len(body)
    h = struct.pack("<BHH", btype, flags, size) + body
    return struct.pack("<H", zlib.crc32(h) & 0xFFFF) + h


def arch_head(flags):
    return head(0x73, flags, b"\0" * 6)


def file_head(name, packed, unpacked, crc, flags, method=0x30, attr=0x20,
              host=2, ver=20, dostime=0x3C214E2A, large=False, ext=b"",
              salt=b"", btype=0x74):
    flags |= 0x8000
    nm = name if isinstance(name, bytes) else name.encode("latin-1")
    body = struct.pack("<IIBIIBBHI", packed & 0xFFFFFFFF,
                       unpacked & 0xFFFFFFFF, host, crc, dostime, ver, method,
                       len(nm), attr)
    if large:
        flags |= 0x100
        body += struct.pack("<II", packed >> 32, unpacked >> 32)
    body += nm + salt + ext
    if salt:
        flags |= 0x400
    if ext:
        flags |= 0x1000
    return head(btype, flags, body)


def zero_crc(data):
    """the same length, but with 00000000 as checksum"""
    if len(data) < 4:
        return data
    c = zlib.crc32(data[:-4]) & 0xFFFFFFFF
    return data[:-4] + struct.pack("<I", 0x6DD90A9D ^ c)


def protect(prev, rsectors):
    """(data sectors, crc table + parity sectors) protecting the bytes prev"""
    n = (len(prev) + 511) // 512
    tab = bytearray()
    par = [bytearray(512) for _ in range(rsectors)]
    for i in range(n):
        sec = prev[i * 512:(i + 1) * 512].ljust(512, b"\0")
        c = (~zlib.crc32(sec)) & 0xFFFF
        tab += struct.pack("<H", c)
        p = par[i % rsectors]
        x = int.from_bytes(p, "big") ^ int.from_bytes(sec, "big")
        p[:] = x.to_bytes(512, "big")
    return n, bytes(tab) + b"".join(bytes(p) for p in par)


def rr_new(prev, rsectors):
    n, data = protect(prev, rsectors)
    extra = b"Protect+" + struct.pack("<IQ", rsectors, n)
    nm = b"RR"
    flags = 0x8000
    body = struct.pack("<IIBIIBBHI", len(data), len(data), 2,
                       zlib.crc32(data) & 0xFFFFFFFF, 0, 29, 0x30, len(nm), 0)
    return head(0x7A, flags, body + nm + extra) + data


def rr_old(prev, rsectors):
    n, data = protect(prev, rsectors)
    body = struct.pack("<IBHI", len(data), 29, rsectors, n) + b"Protect!"
    return head(0x78, 0x8000, body) + data


def comment_block(rng):
    data = rb(rng, rng.randint(5, 40))
    nm = b"CMT"
    body = struct.pack("<IIBIIBBHI", len(data), len(data), 2,
                       zlib.crc32(data) & 0xFFFFFFFF, 0, 29, 0x30, len(nm), 0)
    return head(0x7A, 0x8000, body + nm) + data


def end_block(last, crc=None, volnr=None, revspace=False):
    flags = 0x4000 | (0 if last else 1)
    body = b""
    if crc is not None:
        flags |= 2
        body += struct.pack("<I", crc)
    if volnr is not None:
        flags |= 8
        body += struct.pack("<H", volnr)
    if revspace:
        flags |= 4
        body += b"\0" * 7
    return head(0x7B, flags, body)


def volname(base, style, i, total):
    if style == "old":
        if i == 0:
            return base + ".rar"
        j = i - 1
        return base + "." + chr(ord("r") + j // 100) + "%02d" % (j % 100)
    if style == "num":
        return base + ".%03d" % (i + 1)
    # part9 -> part10 is documented as unsupported: enough digits for all
    w = max(len(str(max(total, 1))), 2 if style == "part2" else 1)
    return base + ".part%0*d.rar" % (w, i + 1)


class RarSet(object):
    def __init__(self):
        self.base = ""
        self.names = []      # volume names in order
        self.vols = {}       # name -> bytes
        self.files = {}      # inner path (backslash) -> bytes
        self.order = []
        self.dirs = []
        self.locs = {}       # inner path -> [(vol name, offset, size)]

    @property
    def first(self):
        return self.names[0]

    def sfv(self, sep=" ", names=None, upper=False):
        out = b"; generated\r\n"
        for n in (names or self.names):
            c = "%08x" % (zlib.crc32(self.vols[n]) & 0xFFFFFFFF)
            out += (n + sep + (c.upper() if upper else c) + "\r\n").encode()
        return out


def rarset(rng, base="rel", files=None, volsize=None, style="old", rr=None,
           rsectors=2, end="full", comment=False, padding=0, solid=False,
           dirs=(), large=False, method=0x30, ext=False,
           zeropart=False, usize=None):
    """Build a multi volume set of *stored* files.

    files: [(inner name, bytes)]; volsize: packed bytes per volume (None: one)
    usize: "last": only the last part of a file has its size (custom packers),
           "none": 4294967295 is given as size of every file
    """
    s = RarSet()
    s.base = base
    queue = [(n, d) for n, d in files]
    s.files = dict(files)
    s.order = [n for n, _ in files]
    s.dirs = list(dirs)
    total = sum(len(d) for _, d in queue)
    multi = volsize is not None and total > volsize
    nvol_est = 1 if not multi else max(2, -(-total // volsize))
    vols = []
    cur = None
    room = 0
    extt = b"\x00\xf0" + b"\x11\x22\x33" if ext else b""

    def start():
        i = len(vols)
        fl = 0
        if multi:
            fl |= 1
            if style in ("part", "part2"):
                fl |= 0x10
            if i == 0:
                fl |= 0x100
        if rr:
            fl |= 0x40
        if solid:
            fl |= 8
        b = bytearray(MARKER + arch_head(fl))
        if comment and i == 0:
            b += comment_block(rng)
        return b

    cur = start()
    room = volsize if multi else 1 << 60
    placed = []  # (vol index, name, offset, size)

    def finish(last):
        i = len(vols)
        b = cur
        if last:
            for d in s.dirs:
                b += file_head(d, 0, 0, 0, 0xE0, attr=0x10)
        if rr == "new":
            b += rr_new(bytes(b), rsectors)
        elif rr == "old":
            b += rr_old(bytes(b), rsectors)
        if end == "full" and multi:
            b += end_block(last, zlib.crc32(bytes(b)) & 0xFFFFFFFF, i,
                           revspace=True)
        elif end == "plain" or (end == "full" and not multi):
            b += end_block(last)
        elif end == "none":
            pass
        if padding:
            b += b"\0" * padding
        vols.append(bytes(b))

    zeroed = None
    for fi, (name, data) in enumerate(queue):
        pos = 0
        crc_all = zlib.crc32(data) & 0xFFFFFFFF
        while True:
            chunk = data[pos:pos + room]
            fl = 0
            if zeropart and multi and not pos and fi and data and room > 0:
                chunk = b""     # header fits, none of the data does
            if pos or zeroed == fi:
                fl |= 1
            if zeroed == fi and not pos:
                chunk = data[:room]
            more = pos + len(chunk) < len(data)
            if not chunk and more:
                zeroed = fi
            if more:
                fl |= 2
            if solid and fi:
                fl |= 0x10
            crc = crc_all if not more else zlib.crc32(chunk) & 0xFFFFFFFF
            size, big = len(data), large
            if usize == "none" and data:
                size, big = 0xFFFFFFFF, False
            elif usize == "last":
                big = True
                if more:
                    size = 0xFFFFFFFFFFFFFFFF
            cur += file_head(name, len(chunk), size, crc, fl,
                             method=method, large=big, ext=extt)
            placed.append((len(vols), name, len(cur), len(chunk)))
            cur += chunk
            pos += len(chunk)
            room -= len(chunk)
            if more:
                finish(False)
                cur = start()
                room = volsize
                continue
            break
        if multi and room <= 0 and fi + 1 < len(queue):
            finish(False)
            cur = start()
            room = volsize
    finish(True)
    s.names = [volname(base, style, i, len(vols)) for i in range(len(vols))]
    s.vols = dict(zip(s.names, vols))
    for vi, name, off, size in placed:
        s.locs.setdefault(name, []).append((s.names[vi], off, size))
    return s


# ---------------------------------------------------------------------------
# SRR files, independently of the code under test

def srr_header(app="pyReScene Test"):
    a = app.encode()
    return struct.pack("<HBHH", 0x6969, 0x69, 1, 7 + 2 + len(a)) + \
        struct.pack("<H", len(a)) + a


def srr_stored(name, data, crc=0x6A6A):
    n = name.encode("utf-8")
    return struct.pack("<HBHH", crc, 0x6A, 0x8000, 7 + 4 + 2 + len(n)) + \
        struct.pack("<I", len(data)) + struct.pack("<H", len(n)) + n + data


def srr_rarfile(name, flags=1):
    n = name.encode("utf-8")
    return struct.pack("<HBHH", 0x7171, 0x71, flags, 7 + 2 + len(n)) + \
        struct.pack("<H", len(n)) + n


def srr_oso(name, size, oso=b"\1\2\3\4\5\6\7\x08"):
    n = name.encode("utf-8")
    return struct.pack("<HBHH", 0x6B6B, 0x6B, 0, 7 + 18 + len(n)) + \
        struct.pack("<Q", size) + oso + struct.pack("<H", len(n)) + n


def rar_blocks(data):
    """split real RAR bytes -> list of (type, header bytes, data bytes);
    trailing unparsable bytes -> (None, b"", bytes)"""
    res = []
    pos = 0
    if data[:7] == MARKER:
        res.append((0x72, data[:7], b""))
        pos = 7
    ended = False
    while pos < len(data):
        if ended or pos + 7 > len(data):
            res.append((None, b"", data[pos:]))
            break
        crc, t, fl, sz = struct.unpack_from("<HBHH", data, pos)
        add = 0
        if fl & 0x8000 or t == 0x74:
            add = struct.unpack_from("<I", data, pos + 7)[0]
        res.append((t, data[pos:pos + sz], data[pos + sz:pos + sz + add]))
        pos += sz + add
        ended = t == 0x7B
    return res


def srr_of_rar(name, data, keep_rr=False):
    """the SRR part for one RAR volume: everything but the packed data and
    the recovery records' contents (old programs kept those: keep_rr)"""
    out = srr_rarfile(name, 0 if keep_rr else 1)
    for t, h, d in rar_blocks(data):
        if t is None:
            out += struct.pack("<HBHHI", 0x6C6C, 0x6C, 0x8000, 11, len(d)) + d
        elif t == 0x74 or (not keep_rr and (t == 0x78 or (
                t == 0x7A and h[32:34] == b"RR"))):
            out += h
        else:
            out += h + d
    return out


def parse_srr(data):
    """independent SRR parser -> (appname, [(stored name, bytes)], tail bytes,
    [items]); raises ValueError on anything malformed"""
    pos = 0
    stored, items = [], []
    rest = b""
    app = None
    rr_removed = 1
    if len(data) < 7:
        raise ValueError("short")
    while pos < len(data):
        if pos + 7 > len(data):
            raise ValueError("trailing bytes")
        crc, t, fl, sz = struct.unpack_from("<HBHH", data, pos)
        if sz < 7 or pos + sz > len(data):
            raise ValueError("block size %d at %d" % (sz, pos))
        h = data[pos:pos + sz]
        if pos == 0:
            if t != 0x69 or crc != 0x6969:
                raise ValueError("no SRR header")
        d = b""
        if t == 0x69:
            app = h[9:].decode("utf-8", "replace") if fl & 1 else ""
        elif t == 0x6A:
            n = struct.unpack_from("<I", h, 7)[0]
            ln = struct.unpack_from("<H", h, 11)[0]
            name = h[13:13 + ln].decode("utf-8", "surrogateescape")
            d = data[pos + sz:pos + sz + n]
            if len(d) != n:
                raise ValueError("stored file truncated: %r" % name)
            stored.append((name, d))
        elif t == 0x6C:
            n = struct.unpack_from("<I", h, 7)[0]
            d = data[pos + sz:pos + sz + n]
            if len(d) != n:
                raise ValueError("padding truncated")
        elif t in (0x6B, 0x71):
            if t == 0x71:
                rr_removed = fl & 1
        elif 0x72 <= t <= 0x7B:
            if t == 0x74 or (rr_removed and (
                    t == 0x78 or (t == 0x7A and h[32:34] == b"RR"))):
                pass
            elif fl & 0x8000:
                n = struct.unpack_from("<I", h, 7)[0]
                d = data[pos + sz:pos + sz + n]
                if len(d) != n:
                    raise ValueError("rar block truncated")
        else:
            raise ValueError("unknown block %#x at %d" % (t, pos))
        items.append((t, h, d))
        if t not in (0x69, 0x6A):
            rest += h + d
        pos += sz + len(d)
    return app, stored, rest, items
