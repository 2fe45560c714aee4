"""External programs: subprocess is never real.  A check registers stubs;
everything else fails like a missing executable."""
import errno
import io
import os
import subprocess

from . import vfs

SIM = None
HANDLERS = {}   # name predicate -> callable(argv, popen) -> (returncode, out)


class SimPopen(object):
    def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                 stdout=None, stderr=None, **kw):
        argv = [args] if isinstance(args, str) else [
            os.fsdecode(a) if isinstance(a, (bytes, os.PathLike)) else a
            for a in args]
        self.args = argv
        self.returncode = None
        self.pid = 4321
        if vfs.CURRENT is None:
            raise OSError(errno.EPERM, "no real subprocess in a simulation")
        self.dies = vfs.CURRENT.sys("spawn", argv[0], len(argv)) == "DIES"
        base = os.path.basename(argv[0])
        for pred, fn in HANDLERS.items():
            if pred(base):
                rc, out = fn(argv, self)
                self._rc = rc
                self.stdout = io.BytesIO(out)
                self.stdin = io.BytesIO()
                self.stderr = None
                return
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT),
                                argv[0])

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    def poll(self):
        return self.wait()

    def communicate(self, input=None, timeout=None):
        self.wait()
        return self.stdout.read(), None

    def kill(self):
        self.returncode = -9

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


def _call(*a, **k):
    return SimPopen(*a, **k).wait()


def _system(cmd):
    raise OSError(errno.EPERM, "os.system in a simulation", cmd)


def install():
    subprocess.Popen = SimPopen
    subprocess.call = _call
    os.system = _system
    os.popen = _system
    import socket

    def refuse(*a, **k):
        raise ConnectionRefusedError(errno.ECONNREFUSED, "simulated network")
    if not getattr(socket, "_sim", False):
        socket.create_connection = refuse
        socket._sim = True
