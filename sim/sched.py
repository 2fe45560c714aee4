"""Deterministic scheduler for threading.Thread.

Every simulated thread is a real thread parked on its own lock; exactly one
holds the baton.  Who runs next is decided here, never by the OS:
  * blocking calls (time.sleep, Thread.join) hand the baton over,
  * with preemption on, every executed line (or bytecode) of the traced files
    is a possible switch point, chosen by the schedule.
A schedule is a list of preemption points [(thread index, k-th traced event of
that thread, run thread index next)], so it can be replayed and shrunk.
"""
import heapq
import sys
import threading
import types
import time
import _thread

from .core import SimCrash, SimDeadlock


def codes(files):
    """code objects of all functions defined in these source files"""
    seen, todo, res = set(), [], []
    for name in sorted(sys.modules):
        mod = sys.modules[name]
        f = getattr(mod, "__file__", None) or ""
        if f.endswith(files):
            todo.extend(v for k, v in sorted(vars(mod).items()))
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, types.CodeType):
            if o.co_filename.endswith(files):
                res.append(o)
                todo.extend(c for c in o.co_consts
                            if isinstance(c, types.CodeType))
        elif isinstance(o, types.FunctionType):
            todo.append(o.__code__)
            if getattr(o, "__wrapped__", None):
                todo.append(o.__wrapped__)
        elif isinstance(o, property):
            todo.extend(x for x in (o.fget, o.fset) if x)
        elif isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        elif isinstance(o, type):
            todo.extend(v for k, v in sorted(vars(o).items()))
    return res


class _Killed(BaseException):
    pass


class T(object):
    def __init__(self, idx, thread):
        self.idx = idx
        self.thread = thread
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.wake = None      # None: runnable; else simulated time
        self.joining = None   # T waited for
        self.events = 0
        self.exc = None
        self.started = False


class Sched(object):
    def __init__(self, sim, preempt=None, trace_files=(), opcodes=False,
                 chooser=None, max_switch=200000):
        self.sim = sim
        self.threads = []
        self.main = T(0, None)
        self.main.started = True
        self.threads.append(self.main)
        self.cur = self.main
        self.preempt = {}
        for t, k, nxt in preempt or ():
            self.preempt[(t, k)] = nxt
        self.trace_files = tuple(trace_files)
        self.opcodes = opcodes
        self.chooser = chooser
        self.switches = 0
        self.max_switch = max_switch
        self.blocks = 0
        self.killing = False
        self.order = []
        self.ev_files = {}

    # -- install ---------------------------------------------------------------
    def __enter__(self):
        S = self
        self._start, self._join = threading.Thread.start, threading.Thread.join
        self._alive = threading.Thread.is_alive
        self._sleep = time.sleep

        def start(th):
            if getattr(th, "_sim_t", None) is not None:
                raise RuntimeError("threads can only be started once")
            t = T(len(S.threads), th)
            th._sim_t = t
            S.threads.append(t)
            _thread.start_new_thread(S._boot, (t,))
            t.started = True

        def join(th, timeout=None):
            t = getattr(th, "_sim_t", None)
            if t is None:
                raise RuntimeError("cannot join thread before it is started")
            S.block(joining=t, timeout=timeout)

        def is_alive(th):
            t = getattr(th, "_sim_t", None)
            return t is not None and not t.done
        threading.Thread.start = start
        threading.Thread.join = join
        threading.Thread.is_alive = is_alive

        def sleep(s):
            S.sim.slept += s
            S.sim.record("t%d sleep %r" % (S.cur.idx, s))
            S.block(timeout=s)
        time.sleep = sleep
        if self.trace_files:
            self._monitor(True)
        return self

    def __exit__(self, *a):
        if self.trace_files:
            self._monitor(False)
        # whatever still runs dies with the process
        self.killing = True
        for t in self.threads[1:]:
            if not t.done:
                self.cur = t
                t.lock.release()
                self.main.lock.acquire()
        threading.Thread.start, threading.Thread.join = self._start, self._join
        threading.Thread.is_alive = self._alive
        time.sleep = self._sleep
        return False

    # -- baton -------------------------------------------------------------------
    def _boot(self, t):
        t.lock.acquire()
        try:
            if not self.killing:
                t.thread.run()
        except _Killed:
            pass
        except SystemExit:
            pass
        except BaseException as e:  # noqa
            t.exc = e
        finally:
            t.done = True
            if self.killing:
                self.main.lock.release()
            else:
                self._next(t)

    def runnable(self):
        now = self.sim.time
        res = []
        for t in self.threads:
            if t.done:
                continue
            if t.joining is not None and t.joining.done:
                t.joining = None
                t.wake = None
            if t.wake is None and t.joining is None:
                res.append(t)
            elif t.wake is not None and t.wake <= now:
                t.wake = None
                t.joining = None
                res.append(t)
        return res

    def _next(self, me):
        """me cannot continue: hand the baton to somebody else"""
        while True:
            r = self.runnable()
            if r:
                break
            wakes = [t.wake for t in self.threads
                     if not t.done and t.wake is not None]
            if not wakes:
                self.deadlock = True
                self.killing = True
                self.main.exc = SimDeadlock("all threads wait forever")
                r = [self.main]
                self.main.joining = None
                break
            self.sim.time = max(self.sim.time, min(wakes))
        nxt = r[0]
        if len(r) > 1 and self.chooser is not None:
            nxt = self.chooser(r)
        self._switch(me, nxt)

    def _switch(self, me, nxt):
        if nxt is me:
            return
        self.switches += 1
        if self.switches > self.max_switch:
            self.killing = True
            self.main.exc = SimDeadlock("no progress: too many switches")
            nxt = self.main
            if me is self.main:
                raise self.main.exc
        self.order.append(nxt.idx)
        self.cur = nxt
        nxt.lock.release()
        if me.done:
            return
        me.lock.acquire()
        self._resumed(me)

    def _resumed(self, me):
        if me is self.main:
            if me.exc is not None:
                e, me.exc = me.exc, None
                raise e
        elif self.killing:
            raise _Killed()

    def block(self, joining=None, timeout=None):
        me = self.cur
        if self.killing and me is not self.main:
            raise _Killed()
        self.blocks += 1
        if self.blocks > 20000:
            if me is self.main:
                raise SimDeadlock("no progress: waits for ever")
            self.killing = True
            self.main.exc = SimDeadlock("no progress: waits for ever")
            self._switch(me, self.main)
        me.joining = joining
        me.wake = None if timeout is None else self.sim.time + timeout
        if joining is None and timeout is None:
            return
        self._next(me)

    # -- preemption ---------------------------------------------------------------
    def _monitor(self, on):
        """every line or instruction of the given files is a yield point"""
        mon = sys.monitoring
        if on:
            mon.use_tool_id(3, "sched")
            ev = mon.events.INSTRUCTION if self.opcodes else mon.events.LINE
            mon.register_callback(3, ev, self.point)
            for c in codes(self.trace_files):
                mon.set_local_events(3, c, ev)
        else:
            # the run's process ends: leave the instrumented code alone
            for ev in (mon.events.INSTRUCTION, mon.events.LINE):
                mon.register_callback(3, ev, None)

    def point(self, code, where):
        me = self.cur
        if self.killing:
            return
        me.events += 1
        nxt = self.preempt.get((me.idx, me.events))
        if nxt is None:
            return
        if nxt >= len(self.threads):
            return
        t = self.threads[nxt]
        if t is me or t.done:
            return
        if t not in self.runnable():
            if t.wake is None:
                return
            # the other thread's timer fires now
            self.sim.time = max(self.sim.time, t.wake)
            if t not in self.runnable():
                return
        self.sim.record("preempt t%d@%d -> t%d (%s:%d)" % (
            me.idx, me.events, nxt, code.co_name, where))
        self._switch(me, t)
