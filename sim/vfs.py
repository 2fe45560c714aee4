"""In-memory file system with fault injection behind the interpreter's own
file seams (builtins.open / io.open / os.*).

Everything below /sim lives in SimFS.  While a simulation is active:
  * relative paths resolve against the simulated cwd,
  * paths outside /sim may only be *read*, and only below the interpreter's own
    library / the repository sources (lazy imports, tracebacks);  everything
    else outside /sim does not exist,
  * every attempt to create, change or delete something outside /sim is
    recorded in fs.escapes and refused (nothing real is ever touched).

Crash model: process kill.  Every completed simulated system call survives,
data still sitting in user space buffers is lost; after the crash point no
simulated call has any effect any more.
"""
import builtins
import errno
import io
import os
import stat as statmod
import sys
import tempfile
import shutil

ROOT = "/sim"

_real = {}
CURRENT = None  # active SimFS


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimStepLimit(BaseException):
    """The run used more simulated system calls than its budget."""


def err(no, path=None, path2=None):
    if path2 is not None:
        return OSError(no, os.strerror(no), path, None, path2)
    if path is not None:
        return OSError(no, os.strerror(no), path)
    return OSError(no, os.strerror(no))


class Node(object):
    __slots__ = ("kind", "data", "children", "mode", "mtime", "ino", "nlink",
                 "opened")

    def __init__(self, kind, ino, mode, mtime):
        self.kind = kind  # 'f' | 'd' | 'l'
        self.data = bytearray() if kind == "f" else None
        self.children = {} if kind == "d" else None
        self.mode = mode
        self.mtime = mtime
        self.ino = ino
        self.nlink = 1
        self.opened = 0


class StatResult(object):
    """enough of os.stat_result"""

    def __init__(self, node):
        kinds = {"f": statmod.S_IFREG, "d": statmod.S_IFDIR,
                 "l": statmod.S_IFLNK}
        size = len(node.data) if node.kind == "f" else 0
        self.st_mode = kinds[node.kind] | node.mode
        self.st_ino = node.ino
        self.st_dev = 77
        self.st_nlink = node.nlink
        self.st_uid = self.st_gid = 0
        self.st_size = size
        self.st_atime = self.st_mtime = self.st_ctime = node.mtime
        self.st_atime_ns = self.st_mtime_ns = self.st_ctime_ns = int(
            node.mtime * 10 ** 9)
        self.st_blksize = 4096
        self.st_blocks = (size + 511) // 512
        self.st_flags = 0

    def __getitem__(self, i):
        return (self.st_mode, self.st_ino, self.st_dev, self.st_nlink,
                self.st_uid, self.st_gid, self.st_size, int(self.st_atime),
                int(self.st_mtime), int(self.st_ctime))[i]


class SimDirEntry(object):
    def __init__(self, fs, dirpath, name, node):
        self._fs, self.name = fs, name
        self.path = (dirpath if dirpath.endswith("/") else dirpath + "/") + name
        if dirpath == "":
            self.path = name
        self._node = node

    def is_dir(self, follow_symlinks=True):
        return self._node.kind == "d"

    def is_file(self, follow_symlinks=True):
        return self._node.kind == "f"

    def is_symlink(self):
        return self._node.kind == "l"

    def is_junction(self):
        return False

    def stat(self, follow_symlinks=True):
        return StatResult(self._node)

    def inode(self):
        return self._node.ino

    def __fspath__(self):
        return self.path


class _Scan(object):
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class SimRaw(io.RawIOBase):
    """Unbuffered file object on a SimFS node."""

    def __init__(self, fs, node, path, readable, writable, append, fd=None,
                 mode="rb"):
        self._fs = fs
        self._node = node
        self.name = path
        self._p = fs.norm(path)
        self._r, self._w, self._a = readable, writable, append
        self._pos = 0
        self._fd = fd
        self.mode = mode
        node.opened += 1
        fs.open_files += 1
        self._done = False

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self._fd is None:
            self._fd = self._fs._new_fd(self)
        return self._fd

    def isatty(self):
        return False

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def seek(self, off, whence=0):
        self._chk()
        if whence == 0:
            pos = off
        elif whence == 1:
            pos = self._pos + off
        else:
            pos = len(self._node.data) + off
        if pos < 0:
            raise err(errno.EINVAL)
        self._pos = pos
        return pos

    def tell(self):
        self._chk()
        return self._pos

    def readinto(self, b):
        self._chk()
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        mv = memoryview(b).cast("B")
        n = self._fs.sys("read", self._p, len(mv))
        avail = self._node.data[self._pos:self._pos + len(mv)]
        if isinstance(n, int) and not isinstance(n, bool) and n > 0:
            avail = avail[:n]  # short read
        mv[:len(avail)] = avail
        self._pos += len(avail)
        self._fs.bytes_read += len(avail)
        return len(avail)

    def write(self, b):
        self._chk()
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        mv = memoryview(b).cast("B")
        limit = self._fs.sys("write", self._p, len(mv), node=self._node,
                             pos=self._pos, payload=mv)
        if isinstance(limit, int) and not isinstance(limit, bool) and limit > 0:
            mv = mv[:limit]  # short write
        if self._a:
            self._pos = len(self._node.data)
        d = self._node.data
        if self._pos > len(d):
            d.extend(b"\0" * (self._pos - len(d)))
        d[self._pos:self._pos + len(mv)] = mv
        self._pos += len(mv)
        self._node.mtime = self._fs.now()
        self._fs.bytes_written += len(mv)
        return len(mv)

    def truncate(self, size=None):
        self._chk()
        if size is None:
            size = self._pos
        self._fs.sys("truncate", self._p, size)
        d = self._node.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        return size

    def close(self):
        if not self.closed:
            first = not self._done
            self._done = True
            try:
                io.RawIOBase.close(self)
            finally:
                if first:
                    self._node.opened -= 1
                    self._fs.open_files -= 1
                    if self._fd is not None:
                        self._fs.fds.pop(self._fd, None)
        # closing a regular file: errors reported by close() (EIO, ENOSPC on
        # network file systems) are injected as faults on the last write

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass


class SimFS(object):
    def __init__(self, clock=None, rng=None, bufsize=8192, max_steps=2000000):
        self.clock = clock or (lambda: 1000000000.0)
        self.rng = rng
        self.bufsize = bufsize
        self.root = Node("d", 1, 0o755, 0)
        self.next_ino = 2
        self.fds = {}
        self.next_fd = 20000
        self.cwd = ROOT
        self.escapes = []
        self.log = []
        self.keep_log = True
        self.fault_hook = None
        self.crashed = False
        self.steps = 0
        self.max_steps = max_steps
        self.readonly = []   # path prefixes mounted read-only
        self.protected = {}  # not enforced; for invariants
        self.watch = None    # callable(site, path, extra) after each mutation
        self.open_files = 0
        self.bytes_read = self.bytes_written = 0
        self.dir_order = "sorted"
        self.capacity = None
        self.mutations = []   # (site, path) of all mutating calls
        self.mkdirs(ROOT)
        self.mkdirs(ROOT + "/tmp")

    def now(self):
        return self.clock()

    # -- fault point -------------------------------------------------------
    MUT = frozenset(["write", "truncate", "creat", "unlink", "rmdir", "mkdir",
                     "rename", "utime", "chmod", "symlink", "link"])

    def sys(self, site, path, extra=None, **kw):
        """Every simulated system call passes here, before it has effect."""
        if self.crashed:
            raise SimCrash("dead")
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimStepLimit("more than %d simulated calls" % self.max_steps)
        if site in self.MUT:
            self.mutations.append((site, path))
            for ro in self.readonly:
                if path == ro or path.startswith(ro + "/"):
                    raise err(errno.EROFS, path)
        res = None
        if self.fault_hook is not None:
            res = self.fault_hook(site, path, extra, kw)
        if self.keep_log:
            self.log.append((site, path, extra))
        return res

    # -- path resolution ---------------------------------------------------
    def norm(self, path):
        """absolute normalised path (or None: not ours)"""
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = p.decode("utf-8", "surrogateescape")
        if "\0" in p:
            raise ValueError("embedded null byte")
        if not p.startswith("/"):
            if p == "":
                return ""
            p = self.cwd + "/" + p
        return p

    def owns(self, p):
        return p == ROOT or p.startswith(ROOT + "/")

    def _walk(self, p):
        """-> (parentnode, name, node|None), resolving '..' like a kernel"""
        parts = [x for x in p.split("/") if x not in ("", ".")]
        cur = self.root
        stack = []
        name = ""
        for i, part in enumerate(parts):
            if cur.kind != "d":
                raise err(errno.ENOTDIR, p)
            if len(part.encode("utf-8", "surrogateescape")) > 255:
                raise err(errno.ENAMETOOLONG, p)
            if part == "..":
                cur = stack.pop() if stack else self.root
                name = ""
                continue
            nxt = cur.children.get(part)
            if i == len(parts) - 1:
                return cur, part, nxt
            if nxt is None:
                raise err(errno.ENOENT, p)
            stack.append(cur)
            cur = nxt
        return None, name, cur

    def lookup(self, p):
        if len(p) > 4096:
            raise err(errno.ENAMETOOLONG, p)
        _, _, n = self._walk(p)
        if n is None:
            raise err(errno.ENOENT, p)
        if p.endswith("/") and n.kind != "d":
            raise err(errno.ENOTDIR, p)
        return n

    def _new(self, kind, mode):
        n = Node(kind, self.next_ino, mode, self.now())
        self.next_ino += 1
        return n

    def _new_fd(self, raw):
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = raw
        return fd

    # -- direct (unfaulted, unlogged) access for the harness ----------------
    def mkdirs(self, p):
        cur = self.root
        for part in p.strip("/").split("/"):
            if part not in cur.children:
                cur.children[part] = self._new("d", 0o755)
            cur = cur.children[part]

    def put(self, p, data, mtime=None, mode=0o644):
        self.mkdirs(os.path.dirname(p))
        par, name, n = self._walk(p)
        if n is None:
            n = self._new("f", mode)
            par.children[name] = n
        n.data[:] = data
        if mtime is not None:
            n.mtime = mtime

    def get(self, p):
        try:
            n = self.lookup(p)
        except OSError:
            return None
        return bytes(n.data) if n.kind == "f" else None

    def rm(self, p):
        par, name, n = self._walk(p)
        if n is not None:
            del par.children[name]

    def exists(self, p):
        try:
            self.lookup(p)
            return True
        except OSError:
            return False

    def tree(self, p=ROOT, dirs=False):
        """{path: bytes} of all files below p (dirs -> {path/: None})"""
        res = {}

        def rec(node, base):
            for name in sorted(node.children):
                c = node.children[name]
                q = base + "/" + name
                if c.kind == "d":
                    if dirs:
                        res[q + "/"] = None
                    rec(c, q)
                else:
                    res[q] = bytes(c.data)
        try:
            n = self.lookup(p)
        except OSError:
            return res
        if n.kind == "d":
            rec(n, p.rstrip("/"))
        return res

    # -- system calls ------------------------------------------------------
    def s_stat(self, path, follow=True):
        p = self.norm(path)
        if p == "":
            raise err(errno.ENOENT, path)
        self.sys("stat", p)
        return StatResult(self.lookup(p))

    def order(self, names):
        names = sorted(names)
        if self.dir_order == "reverse":
            names.reverse()
        elif isinstance(self.dir_order, int):
            # deterministic pseudo-random permutation
            import hashlib
            names.sort(key=lambda x: hashlib.md5(
                (u"%d:%s" % (self.dir_order, x)).encode(
                    "utf-8", "surrogateescape")).digest())
        return names

    def s_listdir(self, path):
        p = self.norm(path)
        self.sys("listdir", p)
        n = self.lookup(p)
        if n.kind != "d":
            raise err(errno.ENOTDIR, path)
        return self.order(n.children)

    def s_scandir(self, path):
        p = self.norm(path)
        self.sys("listdir", p)
        n = self.lookup(p)
        if n.kind != "d":
            raise err(errno.ENOTDIR, path)
        pp = os.fspath(path)
        return _Scan([SimDirEntry(self, pp, x, n.children[x])
                      for x in self.order(n.children)])

    def s_mkdir(self, path, mode=0o777):
        p = self.norm(path)
        par, name, n = self._walk(p.rstrip("/"))
        if n is not None:
            raise err(errno.EEXIST, path)
        if par is None or par.kind != "d":
            raise err(errno.ENOTDIR, path)
        self.sys("mkdir", p)
        par.children[name] = self._new("d", mode & ~0o022)

    def s_rmdir(self, path):
        p = self.norm(path)
        par, name, n = self._walk(p.rstrip("/"))
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind != "d":
            raise err(errno.ENOTDIR, path)
        if n.children:
            raise err(errno.ENOTEMPTY, path)
        self.sys("rmdir", p)
        del par.children[name]

    def s_unlink(self, path):
        p = self.norm(path)
        par, name, n = self._walk(p)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind == "d":
            raise err(errno.EISDIR, path)
        self.sys("unlink", p)
        n.nlink -= 1
        del par.children[name]

    def s_rename(self, src, dst):
        s, d = self.norm(src), self.norm(dst)
        sp, sn, n = self._walk(s.rstrip("/"))
        if n is None:
            raise err(errno.ENOENT, src, dst)
        if not self.owns(os.path.normpath(d)):
            self.escape("rename", d)
        dp, dn, dnode = self._walk(d.rstrip("/"))
        if dp is None or dp.kind != "d":
            raise err(errno.ENOENT, src, dst)
        if dnode is n:
            return
        if dnode is not None:
            if dnode.kind == "d" and n.kind != "d":
                raise err(errno.EISDIR, src, dst)
            if dnode.kind != "d" and n.kind == "d":
                raise err(errno.ENOTDIR, src, dst)
            if dnode.kind == "d" and dnode.children:
                raise err(errno.ENOTEMPTY, src, dst)
        self.sys("rename", s, d)
        for ro in self.readonly:
            if d == ro or d.startswith(ro + "/"):
                raise err(errno.EROFS, d)
        del sp.children[sn]
        dp.children[dn] = n

    def s_open(self, path, flags, mode=0o777, fd=None, pymode="rb"):
        p = self.norm(path)
        if p == "":
            raise err(errno.ENOENT, path)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        par, name, n = self._walk(p)
        if n is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            if p.endswith("/"):
                raise err(errno.EISDIR, path)
            if par is None or par.kind != "d":
                raise err(errno.ENOTDIR, path)
            self.sys("creat", p)
            n = self._new("f", mode & ~0o022)
            par.children[name] = n
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
            if n.kind == "d":
                if acc != os.O_RDONLY or True:
                    raise err(errno.EISDIR, path)
            if p.endswith("/"):
                raise err(errno.ENOTDIR, path)
            if acc == os.O_RDONLY:
                self.sys("open", p)
            elif flags & os.O_TRUNC:
                self.sys("creat", p, "trunc")
                del n.data[:]
                n.mtime = self.now()
            else:
                self.sys("creat", p, "append")
        raw = SimRaw(self, n, path, acc != os.O_WRONLY,
                     acc != os.O_RDONLY, bool(flags & os.O_APPEND), mode=pymode)
        return raw

    def escape(self, op, p):
        self.escapes.append((op, p))
        raise err(errno.EACCES, p)


_PASS_PREFIX = tuple(x for x in {
    os.path.realpath(sys.prefix), os.path.realpath(sys.base_prefix),
    sys.prefix, sys.base_prefix, "/usr/lib", "/usr/share/zoneinfo",
    "/repo", "/verif/sim", "/verif/checks", "/dev/urandom", "/usr/local/lib"})


def _passthrough_read(p):
    return any(p == x or p.startswith(x + "/") for x in _PASS_PREFIX)


def _path(x):
    """-> absolute path string if x is path-like, else None"""
    fs = CURRENT
    if isinstance(x, int):
        return None
    return fs.norm(x)


def _route(path, mutate, opname):
    """'sim' | 'real'; raises for refused accesses"""
    fs = CURRENT
    p = fs.norm(path)
    if p == "":
        raise err(errno.ENOENT, path)
    q = os.path.normpath(p)
    if fs.owns(q):
        return "sim"
    if mutate:
        fs.escape(opname, q)
    if q == "/":
        return "sim"
    if q in ("/dev/null",) or _passthrough_read(q):
        return "real"
    raise err(errno.ENOENT, path)


def _mk(opname, mutate, simfn):
    real = _real[opname]

    def wrapper(path=".", *a, **k):
        fs = CURRENT
        if fs is None:
            return real(path, *a, **k)
        if isinstance(path, int):
            if path in fs.fds:
                return _fdcall(opname, path, *a, **k)
            return real(path, *a, **k)
        if path is None:
            if opname not in ("listdir", "scandir"):
                raise TypeError("%s: path should be string, bytes, "
                                "os.PathLike or integer, not NoneType"
                                % opname)
            path = "."
        k.pop("dir_fd", None)
        if _route(path, mutate, opname) == "real":
            return real(path, *a, **k)
        return simfn(fs, path, *a, **k)
    wrapper.__name__ = opname
    return wrapper


def _fdcall(opname, fd, *a, **k):
    fs = CURRENT
    raw = fs.fds[fd]
    if opname == "stat":
        return StatResult(raw._node)
    if opname == "truncate":
        return raw.truncate(*a)
    return None


def _fdfn(name, fn):
    real = _real[name]

    def wrapper(fd, *a, **k):
        fs = CURRENT
        if fs is None or not isinstance(fd, int) or fd < 20000:
            return real(fd, *a, **k)
        raw = fs.fds.get(fd)
        if raw is None:
            raise err(errno.EBADF)
        return fn(fs, raw, *a, **k)
    wrapper.__name__ = name
    return wrapper


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    fs = CURRENT
    if fs is None:
        return _real["bopen"](file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    raw = None
    binary = "b" in mode
    base = mode.replace("b", "").replace("t", "").replace("U", "")
    if isinstance(file, int) and not isinstance(file, bool):
        if file not in fs.fds:
            if file >= 20000:
                raise err(errno.EBADF)
            return _real["bopen"](file, mode, buffering, encoding, errors,
                                 newline, closefd, opener)
        raw = fs.fds[file]
        raw.name = raw.name
        raw._closefd = closefd
    else:
        if not isinstance(file, (str, bytes)) and not hasattr(
                file, "__fspath__"):
            raise TypeError("expected str, bytes or os.PathLike object, not "
                            + type(file).__name__)
        mut = any(c in base for c in "wax+")
        q = os.path.normpath(fs.norm(file)) if os.fspath(file) else ""
        if q == "/dev/null":
            return _real["bopen"](file, mode, buffering, encoding, errors,
                                 newline, closefd, opener)
        if q == "":
            raise err(errno.ENOENT, file)
        if _route(file, mut, "open") == "real":
            return _real["bopen"](file, mode, buffering, encoding, errors,
                                 newline, closefd, opener)
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}
        kind = base.replace("+", "") or "r"
        if kind not in flags:
            raise ValueError("invalid mode: %r" % mode)
        fl = flags[kind]
        if "+" in base:
            fl = (fl & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
        if opener is not None:
            fd = opener(file, fl)
            if fd not in fs.fds:
                raise err(errno.EBADF)
            raw = fs.fds[fd]
        else:
            raw = fs.s_open(file, fl, 0o666, pymode=mode)
    if kind_raw(raw, base, mode):
        pass
    if base.startswith("a"):
        raw.seek(0, 2)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bs = buffering if buffering > 1 else fs.bufsize
    if "+" in base:
        buf = io.BufferedRandom(raw, bs)
    elif base in ("w", "a", "x"):
        buf = io.BufferedWriter(raw, bs)
    else:
        buf = io.BufferedReader(raw, bs)
    if binary:
        return buf
    txt = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                           buffering == 1)
    txt.mode = mode
    return txt


def kind_raw(raw, base, mode):
    # a descriptor opened O_RDWR can be wrapped in any mode
    raw.mode = mode
    return True


class _FakePath(object):
    pass


def install():
    """Patch the interpreter's file seams (idempotent, inactive until
    activate())."""
    if _real:
        return
    _real["bopen"] = builtins.open
    for name in ("stat lstat listdir scandir mkdir rmdir unlink remove rename "
                 "replace close read write lseek fsync fdatasync fstat "
                 "ftruncate truncate utime chmod chown access getcwd chdir dup "
                 "isatty sendfile symlink readlink link statvfs fchmod "
                 "pread pwrite posix_fallocate copy_file_range").split():
        if hasattr(os, name):
            _real[name] = getattr(os, name)
    builtins.open = sim_open
    io.open = sim_open

    os.stat = _mk("stat", False, lambda fs, p, **k: fs.s_stat(p))
    os.lstat = _mk("lstat", False, lambda fs, p, **k: fs.s_stat(p))
    os.listdir = _mk("listdir", False, lambda fs, p: fs.s_listdir(p))
    os.scandir = _mk("scandir", False, lambda fs, p: fs.s_scandir(p))
    os.mkdir = _mk("mkdir", True, lambda fs, p, mode=0o777: fs.s_mkdir(p, mode))
    os.rmdir = _mk("rmdir", True, lambda fs, p: fs.s_rmdir(p))
    os.unlink = _mk("unlink", True, lambda fs, p: fs.s_unlink(p))
    os.remove = _mk("remove", True, lambda fs, p: fs.s_unlink(p))

    def _ren(fs, a, b, **k):
        _route(b, True, "rename")
        fs.s_rename(a, b)
    os.rename = _mk("rename", True, _ren)
    os.replace = _mk("replace", True, _ren)
    os.chmod = _mk("chmod", True, lambda fs, p, mode, **k: (
        fs.sys("chmod", fs.norm(p)), setattr(fs.lookup(fs.norm(p)), "mode",
                                             mode & 0o7777), None)[-1])
    os.chown = _mk("chown", True, lambda fs, p, *a, **k: None)

    def _utime(fs, p, times=None, ns=None, **k):
        q = fs.norm(p)
        n = fs.lookup(q)
        fs.sys("utime", q)
        if times:
            n.mtime = times[1]
        elif ns:
            n.mtime = ns[1] / 1e9
        else:
            n.mtime = fs.now()
    os.utime = _mk("utime", True, _utime)

    def _access(fs, p, mode, **k):
        try:
            fs.lookup(fs.norm(p))
        except OSError:
            return False
        if mode & os.W_OK:
            q = fs.norm(p)
            return not any(q == r or q.startswith(r + "/")
                           for r in fs.readonly)
        return True
    racc = _mk("access", False, _access)

    def access(p, mode, **k):
        try:
            return racc(p, mode, **k)
        except OSError:
            return False
    os.access = access

    def _trunc(fs, p, length):
        with sim_open(p, "r+b", 0) as f:
            f.truncate(length)
    os.truncate = _mk("truncate", True, _trunc)

    def _symlink(fs, src, dst=None, *a, **k):
        raise err(errno.EPERM, src)
    os.symlink = _mk("symlink", True, _symlink)
    os.link = _mk("link", True, _symlink)

    def _readlink(fs, p, **k):
        fs.lookup(fs.norm(p))
        raise err(errno.EINVAL, p)
    os.readlink = _mk("readlink", False, _readlink)

    class _SV(object):
        f_bsize = f_frsize = 4096
        f_blocks = f_bfree = f_bavail = 1 << 28
        f_files = f_ffree = f_favail = 1 << 20
        f_flag = 0
        f_namemax = 255
    os.statvfs = _mk("statvfs", False, lambda fs, p: _SV())

    def getcwd():
        return _real["getcwd"]() if CURRENT is None else CURRENT.cwd
    os.getcwd = getcwd

    def chdir(p):
        if CURRENT is None:
            return _real["chdir"](p)
        q = os.path.normpath(CURRENT.norm(p))
        if CURRENT.lookup(q).kind != "d":
            raise err(errno.ENOTDIR, p)
        CURRENT.cwd = q
    os.chdir = chdir

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        fs = CURRENT
        if fs is None:
            return _os_open_real(path, flags, mode, dir_fd=dir_fd)
        mut = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if getattr(os, "O_TMPFILE", 0) and (
                flags & os.O_TMPFILE) == os.O_TMPFILE:
            raise err(errno.EOPNOTSUPP, path)
        if _route(path, mut, "open") == "real":
            return _os_open_real(path, flags, mode)
        raw = fs.s_open(path, flags, mode)
        return raw.fileno()
    os.open = os_open

    def _close(fs, raw):
        raw.close()
        if raw._fd is not None:
            fs.fds.pop(raw._fd, None)
    os.close = _fdfn("close", _close)
    os.read = _fdfn("read", lambda fs, raw, n: raw.read(n))
    os.write = _fdfn("write", lambda fs, raw, b: raw.write(b))
    os.lseek = _fdfn("lseek", lambda fs, raw, o, w: raw.seek(o, w))
    os.fsync = _fdfn("fsync", lambda fs, raw: fs.sys("fsync", raw._p) and None)
    os.fdatasync = _fdfn("fdatasync", lambda fs, raw: None)
    os.fstat = _fdfn("fstat", lambda fs, raw: StatResult(raw._node))
    os.ftruncate = _fdfn("ftruncate", lambda fs, raw, n: raw.truncate(n) and None)
    os.fchmod = _fdfn("fchmod", lambda fs, raw, m: None)
    os.isatty = _fdfn("isatty", lambda fs, raw: False)

    def _pread(fs, raw, n, off):
        raw.seek(off)
        return raw.read(n)
    os.pread = _fdfn("pread", _pread)

    def _sendfile(fs, raw, *a, **k):
        raise err(errno.ENOTSOCK)
    os.sendfile = _fdfn("sendfile", _sendfile)

    # shutil: no kernel fast paths, no dir_fd walks
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    shutil._copyxattr = lambda *a, **k: None
    clean = tempfile._TemporaryFileCloser.cleanup
    clean.__defaults__ = (False, lambda p: os.unlink(p))
    for name in ("stat", "utime", "chmod"):
        os.supports_follow_symlinks.add(getattr(os, name))
    tempfile._O_TMPFILE_WORKS = False


_os_open_real = os.open


class NameSeq(object):
    """Deterministic replacement of tempfile's random names."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        chars = "abcdefghijklmnopqrstuvwxyz0123456789_"
        x = (self.n * 2654435761) & 0xFFFFFFFF
        s = ""
        for _ in range(8):
            s += chars[x % len(chars)]
            x = x // len(chars) + self.n * 7919
        return s


def activate(fs):
    global CURRENT
    install()
    CURRENT = fs
    tempfile.tempdir = ROOT + "/tmp"
    tempfile._name_sequence = NameSeq()


def deactivate():
    global CURRENT
    CURRENT = None
    tempfile.tempdir = None
    tempfile._name_sequence = None
