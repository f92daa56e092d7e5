"""Stand-ins for multiprocessing: processes are threads of which one runs at a
time, every operation on a shared object is a scheduling point, and who goes
on is a choice of the explorer.  A Queue's feeder is a transition of its own,
so an item put may become visible late."""
import queue as _queue
import sys
import threading
import types

from . import env
from .explorer import Violation


class Killed(BaseException):
    pass


class Stuck(Violation):
    pass


class _P:
    def __init__(self, sim, name, fn):
        self.sim, self.name, self.fn = sim, name, fn
        self.sem = env.real_Semaphore(0)
        self.done = self.started = self.killed = False
        self.sleeping = False
        self.ready = None  # predicate while blocked
        self.error = None
        self.keys = 0
        self.since = 0
        self.thread = None


class Sim:
    active = None

    def __init__(self, max_steps=4000):
        self.procs = []
        self.cur = None
        self.steps = 0
        self.max_steps = max_steps
        self.feeders = []  # queues with items in flight
        self.dead = False
        self.over = env.real_Semaphore(0)
        self.log = []
        self.main_done_at = None
        self.stuck = None
        self.keygen = None
        self.cpus = 4

    # ------------------------------------------------------------ scheduling
    def me(self):
        return self.cur

    def enabled(self):
        out = []
        for p in self.procs:
            if p.started and not p.done and (p.ready is None or p.ready() or p.killed):
                out.append(p)
        for q in self.feeders:
            out.append(q)
        return out

    def after(self, p, en):
        """The others, in turn; queue feeders last."""
        n, i = len(self.procs), self.procs.index(p)
        rest = sorted((x for x in en if isinstance(x, _P) and x is not p), key=lambda x: (self.procs.index(x) - i) % n)
        return rest + [x for x in en if not isinstance(x, _P)]

    def point(self, what, yield_first=False):
        """The running process is about to do ``what``."""
        p = self.cur
        if self.dead:
            raise Killed()
        if p.killed:
            raise Killed()
        self.steps += 1
        self.log.append((p.name, what))
        if self.steps > self.max_steps:
            self.fail('no end after %d steps' % self.steps)
        while True:
            en = self.enabled()
            # default: go on with the current process; one that sleeps or has
            # generated many keys lets the others go first
            late = yield_first or p.sleeping or p.since >= 3
            order = self.after(p, en)
            mine = [p] if p in en else []
            order = (order + mine) if late else (mine + order)
            if not order:
                self.fail('deadlock: %r' % [(x.name, x.ready is not None) for x in self.procs if x.started and not x.done])
            k = env.STATE.chooser.choose(len(order), what) if len(order) > 1 else 0
            nxt = order[k]
            if isinstance(nxt, Queue):
                nxt.flush_one()
                continue
            break
        if nxt is not p:
            p.since = 0
            self.cur = nxt
            nxt.sem.release()
            p.sem.acquire()
            if self.dead or p.killed:
                raise Killed()
        p.sleeping = False

    def fail(self, msg):
        self.stuck = msg
        self.dead = True
        for p in self.procs:
            p.sem.release()
        raise Killed()

    def leave(self, p):
        """p ends: someone else goes on."""
        p.done = True
        if self.dead:
            return self.finish_check()
        # a process that ends normally flushes what it put
        if not p.killed:
            for q in list(self.feeders):
                q.flush_all()
        while True:
            en = self.after(p, self.enabled())
            if not en:
                left = [x.name for x in self.procs if x.started and not x.done]
                if left:
                    self.stuck = 'deadlock: %r wait forever' % left
                    self.dead = True
                    for x in self.procs:
                        x.sem.release()
                return self.finish_check()
            k = env.STATE.chooser.choose(len(en), 'end') if len(en) > 1 else 0
            nxt = en[k]
            if isinstance(nxt, Queue):
                nxt.flush_one()
                continue
            self.cur = nxt
            nxt.sem.release()
            return

    def finish_check(self):
        if all(p.done or not p.started for p in self.procs):
            self.over.release()

    def spawn(self, name, fn):
        p = _P(self, name, fn)
        self.procs.append(p)
        return p

    def start(self, p):
        def body():
            p.sem.acquire()
            try:
                if not self.dead:
                    p.fn()
            except Killed:
                pass
            except BaseException as e:
                p.error = e
            finally:
                self.leave(p)

        p.started = True
        p.thread = threading.Thread(target=body, daemon=True)
        p.thread.start()

    def run(self, main, timeout=120):
        Sim.active = self
        try:
            m = self.spawn('main', main)
            self.cur = m
            self.start(m)
            m.sem.release()
            if not self.over.acquire(timeout=timeout):
                raise Violation('no termination: the program does not reach any shared operation')
            for p in self.procs:
                if p.thread is not None:
                    p.thread.join(5)
        finally:
            Sim.active = None
        if self.stuck:
            raise Stuck(self.stuck)
        return m


def S():
    s = Sim.active
    if s is None:
        raise RuntimeError('stand-in used outside a simulation')
    return s


# -------------------------------------------------------------- shared objects
class Event:
    def __init__(self, *a, **k):
        self._f = False

    def is_set(self):
        S().point('is_set')
        return self._f

    def set(self):
        S().point('set')
        self._f = True

    def clear(self):
        S().point('clear')
        self._f = False

    def wait(self, timeout=None):
        s = S()
        p = s.me()
        if timeout is None:
            p.ready = lambda: self._f
        s.point('wait', yield_first=not self._f)
        p.ready = None
        return self._f


class Lock:
    def __init__(self, *a, **k):
        self._o, self._n = None, 0

    def acquire(self, block=True, timeout=None):
        s = S()
        p = s.me()
        if self._o is p:
            self._n += 1
            return True
        if block:
            p.ready = lambda: self._o is None
        s.point('acquire')
        p.ready = None
        if self._o is not None:
            return False
        self._o, self._n = p, 1
        return True

    def release(self):
        s = S()
        s.point('release')
        self._n -= 1
        if self._n <= 0:
            self._o = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        if self._o is S().me():
            # released even while being killed
            self._n -= 1
            if self._n <= 0:
                self._o = None
            S().point('release')


class Value:
    def __init__(self, typecode='i', *args, lock=True):
        self._v = args[0] if args else 0
        self._l = Lock()

    def get_lock(self):
        return self._l

    def get_obj(self):
        return self

    def acquire(self, *a):
        return self._l.acquire(*a)

    def release(self):
        return self._l.release()

    def __enter__(self):
        return self._l.__enter__()

    def __exit__(self, *a):
        return self._l.__exit__(*a)

    @property
    def value(self):
        S().point('read')
        return self._v

    @value.setter
    def value(self, v):
        S().point('write')
        self._v = v


class Queue:
    def __init__(self, maxsize=0, **k):
        self.items = []
        self.flight = []  # (process, item)
        self.name = 'feeder'

    def put(self, x, block=True, timeout=None):
        s = S()
        s.point('put')
        self.flight.append((s.me(), x))
        if self not in s.feeders:
            s.feeders.append(self)

    def put_nowait(self, x):
        self.put(x, False)

    def flush_one(self):
        s = S()
        while self.flight:
            p, x = self.flight.pop(0)
            if p.killed and p.done:
                continue
            self.items.append(x)
            break
        if not self.flight and self in s.feeders:
            s.feeders.remove(self)

    def flush_all(self):
        while self.flight:
            self.flush_one()
        if self in S().feeders:
            S().feeders.remove(self)

    def get(self, block=True, timeout=None):
        s = S()
        p = s.me()
        if block and timeout is None:
            p.ready = lambda: bool(self.items)
        s.point('get', yield_first=block and not self.items)
        p.ready = None
        if not self.items:
            raise _queue.Empty
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        S().point('empty')
        return not self.items

    def qsize(self):
        S().point('qsize')
        return len(self.items)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        s = S()
        self.daemon = daemon
        self.pid = None
        kw = kwargs or {}
        n = sum(1 for p in s.procs if p.name.startswith('worker'))
        self.name = 'worker%d' % n
        self._p = s.spawn(self.name, lambda: self.run() if target is None else target(*args, **kw))

    def run(self):
        pass

    def start(self):
        s = S()
        s.start(self._p)
        s.point('start')

    def is_alive(self):
        S().point('is_alive')
        return self._p.started and not self._p.done

    def join(self, timeout=None):
        s = S()
        p = s.me()
        if timeout is None:
            p.ready = lambda: self._p.done
        s.point('join', yield_first=not self._p.done)
        p.ready = None

    def terminate(self):
        s = S()
        s.point('terminate')
        if not self._p.done:
            self._p.killed = True

    kill = terminate

    def close(self):
        pass

    @property
    def exitcode(self):
        return None if not self._p.done else (0 if self._p.error is None else 1)


def cpu_count():
    return S().cpus


def sleep(s):
    sim = Sim.active
    env.STATE.now += s
    if sim is not None:
        sim.me().sleeping = True
        sim.point('sleep', yield_first=True)


NAMES = {'Event': Event, 'Process': Process, 'Queue': Queue, 'SimpleQueue': Queue, 'JoinableQueue': Queue, 'Value': Value, 'Lock': Lock, 'RLock': Lock, 'cpu_count': cpu_count}


def install_keeping(urandom):
    """The same, with the caller's source of key material."""
    return install(urandom)


def install(keep=None):
    """Make the library's process machinery ours; bit.keygen is loaded anew so
    that any way of importing it is covered."""
    import importlib
    import multiprocessing
    import os
    import time

    ctx = types.SimpleNamespace(**NAMES)
    for n, o in NAMES.items():
        setattr(multiprocessing, n, o)
    multiprocessing.get_context = lambda *a: ctx
    time.sleep = sleep
    os.cpu_count = cpu_count
    import bit.keygen
    from .env import STATE

    if keep is not None:
        return importlib.reload(bit.keygen)
    real = STATE.urandom

    def urandom(n):
        # key material is what a check says it is, however it is asked for
        s = Sim.active
        if s is None or n != 32:
            return real(n)
        s.point('key')
        p = s.me()
        p.keys += 1
        p.since += 1
        return s.keygen(p)

    STATE.urandom = urandom
    return importlib.reload(bit.keygen)
