"""C13: every message is printed exactly once and in order."""
import os
import random
import sys
import time

from sim import core, fixtures as F
from sim.common import STATE, W, result, violation
from sim.sched import Sched, SimDeadlock
from checks import c05

import rescene
from rescene import main as rmain, srr as rsrr, rar as rrar, utility
from rescene.main import MsgCode

BUDGET = {"quick": (900, 10, 110), "thorough": (20000, 60, 2400)}
RULE = ("A run lets a working thread report 1-12 messages (directly, or by "
        "really creating or rebuilding a release) while the printing thread "
        "runs; a schedule of 0-8 pre-emptions at line or bytecode level "
        "decides every interleaving; non-trivial when a message was printed.")
REAL = ["rescene.srr.MessageThread", "rescene.main.Observer / _fire",
        "rescene.srr command line"]
STUB = ["OS thread scheduling (simulated, one thread runs at a time)",
        "clock", "stdout/stderr", "file system (in memory)"]
STATE_MEASURE = "hash of the printed output with the thread switch sequence"
KINDS = ()
NMSG = 24
FILES = ("rescene/srr.py", "rescene/main.py")


def plan(rng, tier):
    real = rng.random() < .25
    scn = {"opcodes": rng.random() < .5, "preempt": [], "faults": [],
           "stream": rng.choice(["utf-8", "utf-8", "ascii", "cp1252"]),
           "pick": rng.randrange(1 << 30), "ops": [], "knobs": {}}
    if real:
        scn["real"] = rng.choice(["create", "recon", "create-v"])
        s = c05.plan_set(rng, 0, 1, maxfiles=2)
        if max(s["sizes"]) > 9000:
            s["sizes"] = [700]
        scn["set"] = s
        scn["opcodes"] = False
        return scn
    scn["select"] = rng.choice([None, None, sorted(rng.sample(range(NMSG),
                                                       rng.randint(1, 23)))])
    scn["how"] = rng.choice(["ctor", "set", "all"])
    scn["same"] = rng.random() < .3
    kinds = range(NMSG)
    if scn["same"]:
        kinds = [rng.randrange(NMSG)] * 3 + [rng.randrange(NMSG)]
    for _ in range(rng.randint(1, 12)):
        k = rng.random()
        if k < .6:
            scn["ops"].append(["fire", rng.choice(kinds), rng.choice(
                ["msg", "msg", "m\xe9ssage \u20ac", "two\nlines", "exc"])])
        elif k < .8:
            scn["ops"].append(["sleep", rng.choice([.05, .1, .2, .25, .4,
                                                    1.0])])
        else:
            scn["ops"].append(["wait"])
    scn["end"] = rng.choice(["join", "join", "wait", "wait-join"])
    scn["work"] = rng.choice([0, 0, 3])
    return scn


def vary(rng, scn, base):
    ev = base.get("tev")
    if not ev or len(ev) < 2 or not ev[1]:
        return None
    n = rng.choice([1, 1, 2, 3, 4, 8])
    pre = []
    for _ in range(n):
        t = rng.choice([0, 1, 1])
        hi = ev[t]
        if not hi:
            continue
        # the k-th step of that thread, anywhere or late in the run
        k = rng.randint(1, hi + 5) if rng.random() < .8 else \
            rng.randint(max(1, hi - 40), hi + 5)
        pre.append([t, k, 1 - t])
    return dict(scn, preempt=pre)


def shrink(scn):
    pre = scn["preempt"]
    for i in range(len(pre)):
        yield dict(scn, preempt=pre[:i] + pre[i + 1:])
    for k, v in (("stream", "utf-8"), ("opcodes", False), ("work", 0),
                 ("select", None)):
        if scn.get(k) not in (v, None):
            yield dict(scn, **{k: v})


class Rec(core.Std):
    """stdout/stderr of one stream, in one common log"""

    def __init__(self, log, enc):
        core.Std.__init__(self)
        self.encoding = enc
        self.errors = "strict"
        self.log = log

    def write(self, s):
        b = s.encode(self.encoding, self.errors)
        self.log.append(s)
        self._b.write(b)
        return len(s)


def norm(text, enc):
    return text.encode(enc, "replace").decode(enc)


def run(scn):
    sim = core.Sim((), scn.get("knobs"))
    fs = sim.fs
    log, fired, vs, probes = [], [], [], {}
    enc = scn["stream"]
    argv = None
    if scn.get("real"):
        s = scn["set"]
        rs = c05.build(s)
        if scn["real"] == "recon":
            srr, _, _ = c05.build_srr({"stored": {"a.nfo": 30}}, [(s, rs)])
            fs.put(W + "/rel.srr", srr)
            for n in rs.order:
                d = bytearray(rs.files[n])
                if d and n == rs.order[-1]:
                    d[len(d) // 2] ^= 4     # a CRC message on stderr
                fs.put(W + "/in/" + n.replace("\\", "/"), bytes(d))
            argv = [W + "/rel.srr", "-y", "-i", W + "/in", "-o", W + "/out"]
        else:
            for n in rs.names:
                fs.put(W + "/in/" + n, rs.vols[n])
            fs.put(W + "/in/rel.sfv", rs.sfv())
            argv = [W + "/in/rel.sfv", "-y", "-i", W + "/in", "-o",
                    W + "/out.srr"]
            if scn["real"] == "create-v":
                argv.append("-v")
    rng = random.Random(scn["pick"])
    sched = Sched(sim, preempt=[tuple(p) for p in scn["preempt"]],
                  trace_files=FILES, opcodes=scn["opcodes"],
                  chooser=lambda r: r[rng.randrange(len(r))])
    selected = [None]

    def body():
        out = Rec(log, enc)
        sys.stdout = out
        sys.stderr = Rec(log, enc)
        with sched:
            if argv:
                try:
                    rsrr.main(argv)
                finally:
                    t = rsrr.mthread
                    selected[0] = None if t.all else list(t.messages)
                return
            sel = scn["select"]
            if sel is None or scn["how"] == "ctor":
                t = rsrr.MessageThread(sel)
            else:
                t = rsrr.MessageThread()
                t.set_messages(sel)
                if scn["how"] == "all":
                    t.set_all(False)
            t.start()
            for i, op in enumerate(scn["ops"]):
                if op[0] == "fire":
                    text = "%d:%s:%d" % (i, op[2], i)
                    if scn.get("same"):     # equal messages are messages too
                        text = op[2]
                    m = ValueError(text) if op[2] == "exc" else text
                    if sel is None or op[1] in sel:
                        fired.append(text)
                    rmain._fire(op[1], message=m)
                    for _ in range(scn["work"]):
                        rmain._fire  # a little work between messages
                elif op[0] == "sleep":
                    time.sleep(op[1])
                else:
                    t.wait_for_output()
                    check("after wait_for_output (step %d)" % i)
            if scn["end"] != "join":
                t.wait_for_output()
                check("after the last wait_for_output")
            if scn["end"] != "wait":
                t.done = True
                t.join()
                check("after join")

    def check(when):
        got = "".join(log)
        exp = "".join(norm(x, enc) + "\n" for x in fired)
        if norm(got, enc) != exp and not vs:
            vs.append(violation("messages-differ", "%s: printed %r, reported "
                                "%r" % (when, got, exp)))
    with core.running(sim):
        STATE.restore()
        rsrr.o.events = []
        if argv:
            def spy(e):
                fired.append((e.code, str(getattr(e, "message", ""))))
            rmain.callbacks.append(spy)
        r = sim.call(body)
    tev = [t.events for t in sched.threads]
    if r.kind == "steps":
        vs.insert(0, violation("hang", "%s: the program waits for ever "
                               "(printed %r)" % (r, log[-6:])))
    elif r.kind == "exc" or r.kind == "kbint":
        vs.insert(0, violation("crashed", "%s\n%s" % (r, r.tb)))
    exc = [t.exc for t in sched.threads[1:] if t.exc is not None]
    if exc and not vs:
        vs.append(violation("printing-thread-died", "%r" % exc))
    if argv and not vs:
        if scn["real"] == "recon" or r.kind == "exit":
            probes["real_" + scn["real"]] = 1
        sel = selected[0]
        exp = [norm(m, enc) for c, m in fired if sel is None or c in sel]
        lines = [norm(x, enc) for x in "".join(log).split("\n")]
        want = set(x for m in exp for x in m.split("\n"))
        got = [x for x in lines if x in want]
        flat = [x for m in exp for x in m.split("\n")]
        if got != flat:
            k = next((i for i, (a, b) in enumerate(zip(got, flat)) if a != b),
                     min(len(got), len(flat)))
            vs.append(violation(
                "messages-differ", "%s: %d lines printed, %d reported; first "
                "difference at %d: %r / %r" % (
                    argv, len(got), len(flat), k, got[k:k + 2],
                    flat[k:k + 2])))
    for p in sched.order:
        sim.record("sw %d" % p)
    sim.record("log %r" % (log,))
    probes["switches"] = sched.switches
    probes["preemptions"] = sum(1 for e in sim.events or ()
                                if e.startswith("preempt"))
    probes["messages"] = len(fired)
    res = result(sim, vs, state=sim.digest()[:16], probes=probes,
                 nontrivial=bool(fired))
    res["tev"] = tev
    res["fired"] = ["PREEMPT@%s" % ("opcode" if scn["opcodes"] else "line")
                    ] * probes["preemptions"]
    return res
