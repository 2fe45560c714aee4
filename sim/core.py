"""Simulation context: one seed -> one execution.

A Sim owns the file system, the clock, the standard streams and the fault plan
of one simulated process (or of a sequence of processes sharing one disk).

Faults are addressed by (op index, n-th eligible system call of that op):
    {"op": 1, "n": 7, "kind": "EIO", "sticky": false, "arg": 0.5}
"""
import errno
import gc
import hashlib
import io
import os
import random
import sys
import time
import traceback

from . import vfs, proc
from .vfs import SimCrash, SimFS, SimStepLimit, err

ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES,
         "EBUSY": errno.EBUSY, "EMFILE": errno.EMFILE, "EROFS": errno.EROFS,
         "EDQUOT": errno.EDQUOT, "EPERM": errno.EPERM,
         "ENOMEM": errno.ENOMEM, "EAGAIN": errno.EAGAIN}

# which fault kinds make sense at which system call
APPLIES = {
    "read": ("EIO", "SHORT", "CRASH", "KBINT"),
    "open": ("EIO", "EACCES", "EMFILE", "CRASH", "KBINT"),
    "creat": ("EIO", "ENOSPC", "EACCES", "EMFILE", "CRASH", "KBINT"),
    "write": ("EIO", "ENOSPC", "SHORT", "CRASH", "TORN", "KBINT"),
    "truncate": ("EIO", "CRASH"),
    "unlink": ("EACCES", "EBUSY", "EIO", "CRASH", "KBINT"),
    "rmdir": ("EACCES", "EBUSY", "CRASH"),
    "mkdir": ("ENOSPC", "EACCES", "CRASH"),
    "rename": ("EACCES", "EBUSY", "EIO", "CRASH", "KBINT"),
    "listdir": ("EACCES", "EIO", "CRASH"),
    "utime": ("EPERM", "CRASH"),
    "chmod": ("EPERM",),
    "fsync": ("EIO",),
    "connect": ("REFUSED", "DNS", "TIMEOUT", "KBINT", "CRASH"),
    "reply": ("DROP", "RESET", "TIMEOUT", "TEMP", "PERM", "CUT", "FLIP",
              "SLOW", "KBINT", "CRASH"),
    "spawn": ("ENOMEM", "EAGAIN", "EACCES", "DIES", "KBINT", "CRASH"),
}
NETKINDS = ("REFUSED", "DNS", "TIMEOUT", "DROP", "RESET", "TEMP", "PERM",
            "CUT", "FLIP", "SLOW")
SPACE = ("write", "creat", "mkdir")

EPOCH = 1262304000.0  # 2010-01-01


class Exit(object):
    """outcome of one operation"""
    __slots__ = ("kind", "value", "exc", "tb", "out", "err", "crashed")

    def __init__(self):
        self.kind = "ok"
        self.value = None
        self.exc = None
        self.tb = ""
        self.out = ""
        self.err = ""
        self.crashed = False

    def __repr__(self):
        return "%s:%s" % (self.kind, self.label())

    def label(self):
        if self.exc is not None:
            return type(self.exc).__name__
        if self.kind == "ok":
            return repr(self.value)[:80]
        return ""


class Broken(Exception):
    """the real code could not do, without any fault, what a check needs first
    (make the SRS that is then rebuilt, ...): reported as a violation"""


class SimDeadlock(BaseException):
    """every simulated thread waits for ever"""


class Stdin(io.StringIO):
    def isatty(self):
        return False


class Sim(object):
    def __init__(self, faults=(), knobs=None, keep_log=True):
        knobs = knobs or {}
        self.knobs = knobs
        self.time = EPOCH + knobs.get("t0", 0)
        self.slept = 0.0
        self.fs = SimFS(clock=lambda: self.time,
                        bufsize=knobs.get("bufsize", 8192),
                        max_steps=knobs.get("max_steps", 400000))
        self.fs.dir_order = knobs.get("dir_order", "sorted")
        self.fs.fault_hook = self._hook
        self.fs.keep_log = False
        self.faults = [dict(f) for f in faults]
        self.op = -1
        self.n = 0
        self.fired = []
        self.points = []       # (op, n, site, path) eligible fault points
        self.events = [] if keep_log else None
        self._h = hashlib.sha256()
        self.sticky = {}
        self.denied = set()    # paths whose removal was made to fail
        self.unlisted = set()  # folders whose listing was made to fail
        self.fault_eligible = True
        self.results = []
        self.net = None
        self.on_sys = None

    # -- faults --------------------------------------------------------------
    def record(self, line):
        self._h.update(line.encode("utf-8", "surrogateescape"))
        self._h.update(b"\n")
        if self.events is not None and len(self.events) < 20000:
            self.events.append(line)

    def digest(self):
        return self._h.hexdigest()

    def _hook(self, site, path, extra, kw):
        self.time += 0.0005
        p = path if isinstance(path, str) else os.fsdecode(path)
        if site == "stat" or self.op < 0:
            return None
        self.n += 1
        line = "%d.%d %s %s %s" % (self.op, self.n, site, p, extra)
        if self.on_sys is not None:
            self.on_sys(site, p, extra)
        self.points.append((self.op, self.n, site, p))
        fault = None
        for f in self.faults:
            if f["op"] == self.op and f["n"] == self.n:
                if f["kind"] in APPLIES.get(site, ()):
                    fault = f
                    break
        if fault is None:
            if site in ("connect", "reply"):
                fault = self.sticky.get((site, p.split(" ")[0]))
                self.record(line + (" !sticky " + fault["kind"]
                                    if fault else ""))
                return fault
            k = self.sticky.get(site)
            if k is not None:
                self.record(line + " !sticky " + k)
                self._deny(site, p)
                raise err(ERRNO[k], p)
            self.record(line)
            return None
        kind = fault["kind"]
        self.fired.append((kind, site, self.op, self.n, p))
        self._deny(site, p)
        self.record(line + " !" + kind)
        if kind in NETKINDS:
            if fault.get("sticky"):
                self.sticky[(site, p.split(" ")[0])] = fault
            return fault
        if fault.get("sticky") and kind in ERRNO:
            for s in (SPACE if kind in ("ENOSPC", "EDQUOT") else (site,)):
                self.sticky[s] = kind
        if kind == "SHORT":
            return max(1, int(extra * fault.get("arg", 0.5))) if extra else None
        if kind in ("CRASH", "TORN"):
            if kind == "TORN" and site == "write":
                self._torn(kw, fault)
            self.fs.crashed = True
            raise SimCrash("crash at %s %s" % (site, p))
        if kind == "KBINT":
            raise KeyboardInterrupt()
        if kind == "DIES":      # the program started is killed later on
            return kind
        if kind == "ENOSPC" and site == "write":
            self._torn(kw, fault)
        raise err(ERRNO[kind], p)

    def _deny(self, site, p):
        p = os.path.normpath(os.path.join(self.fs.cwd, p))
        if site in ("unlink", "rmdir"):
            self.denied.add(p)
        elif site == "listdir":
            self.unlisted.add(p)

    def _torn(self, kw, fault):
        """a prefix of the data reaches the disk before the failure"""
        node, pos, data = kw["node"], kw["pos"], kw["payload"]
        n = int(len(data) * fault.get("arg", 0.5))
        if n:
            d = node.data
            if pos > len(d):
                d.extend(b"\0" * (pos - len(d)))
            d[pos:pos + n] = data[:n]

    # -- running operations ----------------------------------------------------
    def call(self, fn, *args, **kw):
        """Run one operation of the system under test; -> Exit"""
        stdin = kw.pop("stdin_text", "")
        self.op += 1
        self.n = 0
        self.sticky = {}
        res = Exit()
        old = sys.stdin, sys.stdout, sys.stderr
        out, errs = Std(), Std()
        sys.stdin, sys.stdout, sys.stderr = Stdin(stdin), out, errs
        try:
            try:
                res.value = fn(*args, **kw)
                res.kind = "ok"
            except SimCrash as e:
                res.kind, res.exc = "crash", e
            except (SimStepLimit, SimDeadlock) as e:
                res.kind, res.exc = "steps", e
            except SystemExit as e:
                res.kind, res.exc = "exit", e
                res.value = e.code
            except KeyboardInterrupt as e:
                res.kind, res.exc = "kbint", e
            except Exception as e:
                res.kind, res.exc = "exc", e
                res.tb = traceback.format_exc()
            if res.exc is not None and res.exc.__traceback__ is not None:
                # frames keep file objects alive; the process would drop them
                tb = res.exc.__traceback__
                if not res.tb:
                    res.tb = "".join(traceback.format_tb(tb)[-3:])
                _clear(res.exc)
            gc.collect()
        finally:
            sys.stdin, sys.stdout, sys.stderr = old
        if self.fs.crashed:
            res.crashed = True
            res.kind = "crash"
        res.out, res.err = out.text(), errs.text()
        self.record("op %d -> %r out=%s" % (
            self.op, res, hashlib.md5(
                (res.out + res.err).encode("utf-8", "replace")).hexdigest()))
        self.results.append(res)
        return res

    def restart(self):
        """a new process on the same disk"""
        self.fs.crashed = False
        self.fs.fds.clear()
        self.fs.open_files = 0
        self.fs.cwd = vfs.ROOT


class Std(io.TextIOBase):
    """captured stdout/stderr (with .buffer, .encoding)"""
    encoding = "utf-8"
    errors = "replace"

    def __init__(self):
        self._b = io.BytesIO()
        self.buffer = self._b

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, s):
        if isinstance(s, bytes):
            raise TypeError("write() argument must be str, not bytes")
        self._b.write(s.encode("utf-8", "replace"))
        return len(s)

    def text(self):
        return self._b.getvalue().decode("utf-8", "replace")


def _clear(exc, seen=None):
    seen = seen or set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if exc.__traceback__ is not None:
            try:
                traceback.clear_frames(exc.__traceback__)
            except Exception:
                pass
            exc.__traceback__ = None
        if exc.__cause__ is not None:
            _clear(exc.__cause__, seen)
        exc = exc.__context__


_real_time = {}


def _install_clock(sim):
    if not _real_time:
        for k in ("time", "sleep", "localtime", "gmtime", "ctime", "strftime",
                  "asctime", "monotonic", "perf_counter"):
            _real_time[k] = getattr(time, k)
    rt = _real_time

    def now():
        return sim.time

    def sleep(s):
        sim.time += s
        sim.slept += s
        sim.record("sleep %r" % (s,))
        if sim.on_sys is not None:
            sim.on_sys("sleep", "", s)
    time.time = time.monotonic = time.perf_counter = now
    time.sleep = sleep
    time.localtime = lambda s=None: rt["localtime"](sim.time if s is None else s)
    time.gmtime = lambda s=None: rt["gmtime"](sim.time if s is None else s)
    time.ctime = lambda s=None: rt["ctime"](sim.time if s is None else s)
    time.strftime = lambda f, t=None: rt["strftime"](
        f, rt["localtime"](sim.time) if t is None else t)


def _uninstall_clock():
    for k, v in _real_time.items():
        setattr(time, k, v)


class running(object):
    """context manager: the simulated world is in force"""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        os.environ["TZ"] = "UTC"
        time.tzset()
        random.seed(12345)
        sys.unraisablehook = lambda *a: None
        gc.collect()
        gc.disable()
        proc.install()
        vfs.activate(self.sim.fs)
        _install_clock(self.sim)
        return self.sim

    def __exit__(self, *a):
        _uninstall_clock()
        vfs.deactivate()
        return False
