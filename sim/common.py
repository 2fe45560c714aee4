"""Shared by the checks."""
import copy
import gc
import hashlib
import os
import random
import sys
import threading
import types

REPO = os.environ.get("VERIF_REPO", "/repo")

from . import core, fixtures, vfs, proc
from .sched import Sched, SimDeadlock

W = "/sim/w"


class ProcState(object):
    """Module level state of the system under test, so that a new simulated
    process starts from a freshly imported program."""

    def __init__(self):
        self.mods = {}

    def add(self, *mods):
        for m in mods:
            if m in self.mods:
                continue
            snap = []
            for holder in [m] + [c for c in vars(m).values()
                                 if isinstance(c, type)
                                 and c.__module__ == m.__name__]:
                for k, v in list(vars(holder).items()):
                    if k.startswith("__"):
                        continue
                    snap.append((holder, k, v, self._content(v, m)))
            self.mods[m] = snap

    def _content(self, v, m):
        if isinstance(v, (list, dict, set, bytearray)):
            return ("c", copy.copy(v))
        if (type(v).__module__ == m.__name__ or type(v).__module__.split(
                ".")[0] in ("rescene", "resample")) \
                and hasattr(v, "__dict__") \
                and not isinstance(v, (threading.Thread, type)):
            return ("d", {k: (copy.copy(x) if isinstance(
                x, (list, dict, set)) else x) for k, x in vars(v).items()})
        if isinstance(v, threading.Thread):
            return ("t", type(v))
        return None

    def restore(self):
        for m, snap in self.mods.items():
            for holder, k, v, c in snap:
                if c and c[0] == "c":
                    if isinstance(v, (list, bytearray)):
                        v[:] = c[1]
                    else:
                        v.clear()
                        v.update(c[1])
                elif c and c[0] == "d":
                    v.__dict__.clear()
                    for a, x in c[1].items():
                        v.__dict__[a] = copy.copy(x) if isinstance(
                            x, (list, dict, set)) else x
                elif c and c[0] == "t":
                    v = c[1]()
                try:
                    if vars(holder).get(k) is not v:
                        setattr(holder, k, v)
                except (AttributeError, TypeError):
                    pass
            # names created later
            names = set(k for h, k, _, _ in snap if h is m)
            for k in [k for k in vars(m) if not k.startswith("__")
                      and k not in names]:
                if not isinstance(vars(m)[k], types.ModuleType):
                    delattr(m, k)


STATE = ProcState()


def result(sim, violations, state=None, nontrivial=True, probes=None,
           outcome=None):
    pts = [(o, n, s) for o, n, s, _ in sim.points]
    if len(pts) > 4000:
        pts = pts[:2000] + pts[-2000:]
    h = hashlib.sha256()
    for p, d in sorted(sim.fs.tree().items()):
        h.update(p.encode("utf-8", "surrogateescape") + b"\0")
        h.update(hashlib.md5(d).digest())
    vs = list(violations)
    if sim.fs.escapes:
        vs.append({"class": "escape", "sig": "escape",
                   "msg": "tried to change files outside the sandboxed tree: "
                          "%r" % (sim.fs.escapes[:3],)})
    for v in vs:
        v.setdefault("sig", v["class"])
    return {"violations": vs, "points": pts,
            "fired": ["%s@%s" % (k, s) for k, s, _, _, _ in sim.fired],
            "digest": sim.digest(),
            "state": state or h.hexdigest()[:16],
            "nontrivial": nontrivial, "probes": probes or {},
            "simtime": round(sim.time - core.EPOCH, 4),
            "steps": sim.fs.steps,
            "outcome": outcome or [repr(r) for r in sim.results],
            "trace": sim.events}


def violation(cls, msg, sig=None):
    return {"class": cls, "msg": str(msg)[:1500], "sig": sig or cls}


def cli(sim, fn, argv, stdin_text="", prog="prog", sched=True, hook=None):
    """one process: fn() reads sys.argv[1:]; -> Exit"""
    STATE.restore()
    random.seed(4242)
    sim.restart()
    old = sys.argv
    sys.argv = [prog] + list(argv)
    try:
        if not sched:
            return sim.call(fn, stdin_text=stdin_text)
        s = Sched(sim)

        def body():
            with s:
                return fn()
        return sim.call(body, stdin_text=stdin_text)
    finally:
        sys.argv = old


def fired_in(sim, op, sites=None):
    return [f for f in sim.fired if f[2] == op
            and (sites is None or f[1] in sites)]
