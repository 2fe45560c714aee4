"""A simulated network with NNTP news servers.

Every connection attempt and every reply is a fault point:
  connect: REFUSED, DNS, TIMEOUT
  reply:   DROP (connection closed), RESET, TIMEOUT (nothing ever arrives),
           TEMP (4xx), PERM (5xx), CUT (closed in the middle of the reply),
           FLIP (one byte of an article differs), SLOW (nearly timed out)
A sticky fault stays in force for the host that it hit."""
import errno
import socket

TIMEOUT = 180.0
LATENCY = 0.03


NO430 = (b"430 no such article\r\n", b"430 No Such Article Found\r\n",
         b"430 No article with that message-id\r\n", b"430\r\n")


class Host(object):
    def __init__(self, name, user="", password="", caps=True, date=True):
        self.name = name
        self.user = user
        self.password = password
        self.caps = caps
        self.articles = {}      # message id -> lines (not dot stuffed)
        self.headers = {}       # message id -> header lines
        self.groups = set()
        self.requests = 0
        # every server has its own words
        self.no430 = NO430[sum(name.encode()) % len(NO430)]


class Net(object):
    def __init__(self, sim):
        self.sim = sim
        self.hosts = {}
        self.open = 0
        self.flipped = []       # articles that were sent with an error
        self.requests = 0
        self.connects = 0
        sim.net = self
        socket.create_connection = self.connect
        socket._sim = True

    def add(self, host):
        self.hosts[host.name] = host
        return host

    def connect(self, address, timeout=None, *a, **k):
        name = address[0]
        self.connects += 1
        self.sim.time += LATENCY
        f = self.sim.fs.sys("connect", name, address[1])
        kind = f["kind"] if f else None
        if kind == "REFUSED":
            raise ConnectionRefusedError(errno.ECONNREFUSED, "refused")
        if kind == "DNS" or name not in self.hosts:
            raise socket.gaierror(socket.EAI_NONAME, "unknown host " + name)
        if kind == "TIMEOUT":
            self.sim.time += TIMEOUT
            raise TimeoutError("timed out")
        return Sock(self, self.hosts[name])


class Sock(object):
    def __init__(self, net, host):
        self.net = net
        self.host = host
        self.buf = b""
        self.out = b""
        self.state = "open"     # or eof, reset, silent
        self.closed = False
        self.auth = not host.user
        self.name = None
        self.reply("welcome", b"200 news\r\n")

    # -- socket
    def makefile(self, mode="r", *a, **k):
        return self

    def settimeout(self, t):
        pass

    def shutdown(self, how):
        self.state = "eof"

    # -- file
    def close(self):
        self.closed = True

    def readable(self):
        return True

    def write(self, data):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.buf += data
        return len(data)

    def flush(self):
        if self.state == "reset":
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if self.state in ("eof", "silent"):
            self.buf = b""
        while b"\r\n" in self.buf:
            line, self.buf = self.buf.split(b"\r\n", 1)
            if self.state == "open":
                self.command(line.decode("utf-8", "replace"))

    def readline(self, limit=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        i = self.out.find(b"\n") + 1
        if not i:
            if self.state == "reset":
                self.out = b""
                raise ConnectionResetError(errno.ECONNRESET, "reset")
            if self.state == "eof":
                line, self.out = self.out, b""
                return line
            # the server has nothing more to say
            self.net.sim.time += TIMEOUT
            self.state = "silent"
            raise TimeoutError("timed out")
        if 0 <= limit < i:
            i = limit
        line, self.out = self.out[:i], self.out[i:]
        return line

    # -- server
    def reply(self, what, data, article=False):
        sim = self.net.sim
        self.net.requests += 1
        self.host.requests += 1
        sim.time += LATENCY + len(data) / 1e6
        f = sim.fs.sys("reply", "%s %s" % (self.host.name, what), len(data))
        kind = f["kind"] if f else None
        at = f.get("arg", 0.5) if f else 0
        if kind == "DROP":
            self.state, data = "eof", b""
        elif kind == "RESET":
            self.state, data = "reset", b""
        elif kind == "TIMEOUT":
            self.state, data = "silent", b""
        elif kind == "TEMP":
            data = self.host.no430 if article else \
                b"400 service temporarily unavailable\r\n"
        elif kind == "PERM":
            data = b"502 access denied\r\n"
        elif kind == "CUT":
            self.state = "eof"
            data = data[:int(len(data) * at)]
        elif kind == "FLIP" and article:
            data = flip(data, at)
            self.net.flipped.append(what)
        elif kind == "SLOW":
            sim.time += TIMEOUT - 1
        self.out += data

    def command(self, line):
        w = line.split()
        cmd = w[0].upper() if w else ""
        h = self.host
        what = line if not line.lower().startswith("authinfo pass") else \
            "AUTHINFO PASS"
        if cmd == "QUIT":
            self.reply(what, b"205 bye\r\n")
            if self.state == "open":
                self.state = "eof"
        elif cmd == "CAPABILITIES":
            self.reply(what, b"101 list\r\nVERSION 2\r\nREADER\r\n.\r\n"
                       if h.caps else b"500 what?\r\n")
        elif cmd == "MODE":
            self.reply(what, b"200 reader\r\n")
        elif cmd == "AUTHINFO":
            if w[1].lower() == "user":
                self.name = w[2]
                self.reply(what, b"381 password\r\n")
            elif (self.name, w[2]) == (h.user, h.password):
                self.auth = True
                self.reply(what, b"281 welcome\r\n")
            else:
                self.reply(what, b"481 wrong\r\n")
        elif not self.auth:
            self.reply(what, b"480 authentication required\r\n")
        elif cmd == "GROUP":
            self.reply(what, b"211 9 1 9 " + w[1].encode() + b"\r\n"
                       if w[1] in h.groups else b"411 no such group\r\n")
        elif cmd in ("BODY", "STAT", "HEAD", "ARTICLE"):
            mid = w[1].strip("<>") if len(w) > 1 else ""
            lines = h.articles.get(mid)
            if lines is None:
                self.reply(what, self.host.no430, True)
            elif cmd == "STAT":
                self.reply(what, ("223 0 <%s>\r\n" % mid).encode())
            else:
                if cmd == "HEAD":
                    code, lines = 221, h.headers.get(mid, [])
                elif cmd == "BODY":
                    code = 222
                else:
                    code, lines = 220, h.headers.get(mid, []) + [b""] + lines
                self.reply(what, ("%d 0 <%s>\r\n" % (code, mid)).encode()
                           + b"".join((b"." + b if b.startswith(b".") else b)
                                      + b"\r\n" for b in lines) + b".\r\n",
                           True)
        else:
            self.reply(what, b"500 unknown command\r\n")


def flip(data, at):
    """change one byte of the article's data lines"""
    lines = data.split(b"\r\n")
    pos = [i for i, b in enumerate(lines) if i and b and not b.startswith(
        (b"=y", b"."))]
    if not pos:
        return data
    i = pos[int(at * len(pos)) % len(pos)]
    b = bytearray(lines[i])
    k = int(at * 997) % len(b)
    for x in (0x10, 0x11, 0x12):
        c = b[k] ^ x
        if c not in (0, 10, 13, 46, 61) and b[k] != 61 and not (
                k and b[k - 1] == 61):
            b[k] = c
            break
    lines[i] = bytes(b)
    return b"\r\n".join(lines)


# -- posting ------------------------------------------------------------------

def yenc(data, line=128, nodot=True):
    out, cur = [], bytearray()
    for c in data:
        c = (c + 42) & 255
        if c in (0, 10, 13, 61) or (c in (9, 32) and not cur) or (
                c == 46 and not cur and not nodot):
            cur += bytes((61, (c + 64) & 255))
        else:
            cur.append(c)
        if len(cur) >= line:
            out.append(bytes(cur))
            cur = bytearray()
    if cur:
        out.append(bytes(cur))
    return out


def articles(name, data, size, line=128, style="multi", crc=True, nodot=True):
    """-> [(decoded size, lines)]"""
    import zlib
    parts = [data[i:i + size] for i in range(0, len(data), size)] or [b""]
    res, pos = [], 0
    n = name.encode("latin-1", "replace")
    for i, p in enumerate(parts):
        c = b"%08x" % (zlib.crc32(p) & 0xFFFFFFFF)
        if len(parts) == 1 and style == "single":
            ls = [b"=ybegin line=%d size=%d name=%s" % (line, len(data), n)]
            end = b"=yend size=%d" % len(p) + (b" crc32=" + c if crc else b"")
        else:
            ls = [b"=ybegin part=%d%s line=%d size=%d name=%s" % (
                i + 1, b" total=%d" % len(parts) if style != "nototal"
                else b"", line, len(data), n),
                b"=ypart begin=%d end=%d" % (pos + 1, pos + len(p))]
            end = b"=yend size=%d part=%d" % (len(p), i + 1) + (
                b" pcrc32=" + c if crc else b"")
        res.append((len(p), ls + yenc(p, line, nodot) + [end]))
        pos += len(p)
    return res


def nzb(files, quoted=True):
    """files: [(name, date, groups, [(bytes, number, message id)])] -> XML"""
    x = ['<?xml version="1.0" encoding="iso-8859-1" ?>',
         '<!DOCTYPE nzb PUBLIC "-//newzBin//DTD NZB 1.1//EN" '
         '"http://www.newzbin.com/DTD/nzb/nzb-1.1.dtd">',
         '<nzb xmlns="http://www.newzbin.com/DTD/2003/nzb">']
    for i, (name, date, groups, segs) in enumerate(files):
        name = name.replace("&", "&amp;")
        s = ('[%d/%d] - &quot;%s&quot; yEnc (1/%d)' if quoted else
             '[%d/%d] %s (1/%d)') % (i + 1, len(files), name, len(segs))
        x.append('<file poster="p@x" date="%d" subject="%s">' % (date, s))
        x.append("<groups>" + "".join("<group>%s</group>" % g
                                      for g in groups) + "</groups>")
        x.append("<segments>")
        for b, n, mid in segs:
            x.append('<segment bytes="%d" number="%d">%s</segment>' % (
                b, n, mid))
        x.append("</segments>")
        x.append("</file>")
    x.append("</nzb>")
    return "\n".join(x).encode("latin-1")
