"""Deterministic scheduler for real threads running the library.  A thread may
be preempted before any line of library code and before any instruction that
stores to something shareable (attribute, item, global, closure variable).
One thread runs at a time; a schedule is the first thread and, for each switch
in turn, the place and visit at which the running thread is preempted.  Locks the library takes are cooperative: waiting on one hands over
to the other thread, and a deadlock is a violation."""
import dis
import os
import sys
import threading

from . import env
from .explorer import Violation

ROOT = os.path.realpath(env.REPO) + os.sep + 'bit' + os.sep
STORES = {'STORE_ATTR', 'STORE_SUBSCR', 'STORE_SLICE', 'STORE_GLOBAL', 'STORE_DEREF', 'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL', 'DELETE_DEREF'}
_OPS = {i for n, i in dis.opmap.items() if n in STORES}
_names = {}


def in_lib(filename):
    r = _names.get(filename)
    if r is None:
        r = _names[filename] = os.path.realpath(filename).startswith(ROOT)
    return r


_has = {}


def stores(code):
    r = _has.get(code)
    if r is None:
        r = _has[code] = bool(_OPS & set(code.co_code[::2]))
    return r


_lines = {}


def lines(code):
    r = _lines.get(code)
    if r is None:
        r = _lines[code] = {l for _, _, l in code.co_lines() if l is not None}
    return r


class Deadlock(BaseException):
    pass


class _T:
    __slots__ = ('i', 'sem', 'done', 'result', 'thread', 'blocked')


class Sched:
    current = None  # the active scheduler

    def __init__(self, fns, first=0, switches=(), record=False):
        self.fns = fns
        self.switches = list(switches)
        self.record = record
        self.trace = []
        self.cur = first
        self.visits = 0  # of the next switch's place by the current thread
        self.deadlock = False
        self.preempted = 0
        self.ts = []
        for i in range(len(fns)):
            t = _T()
            t.i, t.sem, t.done, t.result, t.blocked = i, env.real_Semaphore(0), False, None, False
            self.ts.append(t)
        self.byid = {}
        self.all_done = env.real_Semaphore(0)

    # --------------------------------------------------------------- tracing
    def _global(self, t):
        def tr(frame, event, arg):
            code = frame.f_code
            if not in_lib(code.co_filename):
                return None
            if self.record:
                if stores(code):
                    frame.f_trace_opcodes = True
                return loc
            if not self.switches or self.cur != t.i:
                return None
            (file, line, op), nth = self.switches[0]
            if file != code.co_filename or line not in lines(code):
                return None
            if op >= 0 and stores(code):
                frame.f_trace_opcodes = True
            return loc

        def loc(frame, event, arg):
            if event == 'line':
                w = (frame.f_code.co_filename, frame.f_lineno, -1)
            elif event == 'opcode' and frame.f_code.co_code[frame.f_lasti] in _OPS:
                w = (frame.f_code.co_filename, frame.f_lineno, frame.f_lasti)
            else:
                return loc
            if self.record:
                self.trace.append(w)
            elif self.switches and self.cur == t.i and self.switches[0][0] == w:
                if self.visits == self.switches[0][1]:
                    self.switches.pop(0)
                    o = self.other(t)
                    if o is not None:
                        self.preempted += 1
                        self.hand(t, o)
                else:
                    self.visits += 1
            return loc

        return tr

    def other(self, t):
        n = len(self.ts)
        for k in range(1, n):
            o = self.ts[(t.i + k) % n]
            if not o.done:
                return o
        return None

    def hand(self, t, o):
        self.cur, self.visits = o.i, 0
        o.sem.release()
        t.sem.acquire()
        if self.deadlock:
            raise Deadlock()

    def blocked(self):
        """The running thread waits for a lock."""
        t = self.byid[threading.get_ident()]
        t.blocked = True
        n = len(self.ts)
        for k in range(1, n):
            o = self.ts[(t.i + k) % n]
            if not o.done and not o.blocked:
                self.hand(t, o)
                t.blocked = False
                return
        self.deadlock = True
        for o in self.ts:
            if o is not t:
                o.sem.release()
        raise Deadlock()

    def unblock(self):
        for o in self.ts:
            o.blocked = False

    # --------------------------------------------------------------- running
    def _run(self, t):
        t.sem.acquire()
        self.byid[threading.get_ident()] = t
        sys.settrace(self._global(t))
        try:
            t.result = ('ok', self.fns[t.i]())
        except Deadlock:
            t.result = ('deadlock',)
        except BaseException as e:
            t.result = ('error', type(e).__name__, str(e))
        finally:
            sys.settrace(None)
            t.done = True
            self.unblock()
            o = self.other(t)
            if o is not None:
                self.cur, self.visits = o.i, 0
                o.sem.release()
            else:
                self.all_done.release()

    def run(self, timeout=60):
        Sched.current = self
        try:
            for t in self.ts:
                t.thread = threading.Thread(target=self._run, args=(t,), daemon=True)
                t.thread.start()
            self.ts[self.cur].sem.release()
            if not self.all_done.acquire(timeout=timeout):
                raise Violation('no termination of %r' % [t.i for t in self.ts if not t.done])
            for t in self.ts:
                t.thread.join()
        finally:
            Sched.current = None
        if self.deadlock:
            raise Violation('deadlock')
        return [t.result for t in self.ts]


class CoopLock:
    """What the library gets for threading.Lock / RLock."""

    def __init__(self, reentrant):
        self._l = env.real_Lock()
        self._re = reentrant
        self._owner, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        s = Sched.current
        if s is None or me not in s.byid:
            ok = self._l.acquire(blocking, timeout)
        else:
            ok = self._l.acquire(False)
            while not ok and blocking:
                s.blocked()
                ok = self._l.acquire(False)
        if ok:
            self._owner, self._n = me, 1
        return ok

    def release(self):
        self._n -= 1
        if self._n <= 0:
            self._owner = None
            self._l.release()
            if Sched.current is not None:
                Sched.current.unblock()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def selected(trace, first=2):
    """Points to preempt at: the first ``first`` and the last visit of every
    place."""
    seen = {}
    for w in trace:
        seen[w] = seen.get(w, 0) + 1
    return [(w, k) for w, n in seen.items() for k in sorted(set(range(min(first, n))) | {n - 1})]
