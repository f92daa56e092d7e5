"""Exhaustive exploration engine: units of work in forked children, stateless
choice enumeration inside them, evidence and replay artefacts."""
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import time as _time
import traceback

from . import env
from .env import Chooser, Divergence, STATE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
_now = env.real_monotonic


KNOWN = {}  # known findings of the property being checked: key -> text


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


class Hang(BaseException):
    pass


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Ctx:
    """What a unit reports while it explores."""

    def __init__(self, unit, tier, seed, stop_after=None):
        self.unit, self.tier, self.seed = unit, tier, seed
        self.execs = 0  # complete executions judged against the oracle
        self.calls = 0  # transitions: library calls / steps executed
        self.states = set()  # distinct canonical states / configurations
        self.outcomes = {}
        self.samples = []
        self.capped = []
        self.cur = None
        self.known = {}

    def case(self, desc, key=None, calls=1):
        """One execution: desc is replayable, key is its canonical state."""
        self.cur = desc
        self.execs += 1
        self.calls += calls
        self.states.add(h64(desc if key is None else key))
        if self.execs in (1, 7, 50) and len(self.samples) < 3:
            self.samples.append(_short(desc))

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.calls += n

    def outcome(self, o):
        o = str(o)
        self.outcomes[o] = self.outcomes.get(o, 0) + 1

    def cap(self, what):
        if what not in self.capped:
            self.capped.append(what)

    def fail(self, msg, **detail):
        raise Violation(msg, **detail)

    def check(self, cond, msg, **detail):
        if not cond:
            raise Violation(msg, **detail)

    def known_finding(self, key, msg, **detail):
        """The listed defect was met; any defect not listed is a violation."""
        if key not in KNOWN:
            raise Violation(msg, **detail)
        self.known[key] = KNOWN[key]
        self.outcome('known finding ' + key)

    def eq(self, got, want, msg, **detail):
        if got != want:
            raise Violation(msg + ': got %s, expected %s' % (_short(got), _short(want)), **detail)


def _short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def explore(fn, max_dev=None, limit=None, ctx=None, choices=None):
    """Run ``fn()`` once for every sequence of answers to the choice points it
    meets (depth-first); with max_dev only sequences with at most that many
    non-default answers.  Returns the number of executions."""
    stack = [([], None)]
    n = after = 0
    while stack:
        prefix, ar = stack.pop()
        if limit is not None and n >= limit:
            if ctx is not None:
                ctx.cap('choice tree limited to %d executions' % limit)
            break
        ch = Chooser(prefix, ar)
        STATE.chooser = ch
        n += 1
        fn(ch)
        if len(ch.trace) < len(prefix):
            STATE.diverged = STATE.diverged or 'execution consumed %d of %d choices' % (len(ch.trace), len(prefix))
        if STATE.diverged:
            after += 1
            if after > 3000:
                raise Divergence(STATE.diverged)
        cs = [c for c, _ in ch.trace]
        ars = [a for _, a in ch.trace]
        dev = sum(1 for c in cs[: len(prefix)] if c)
        for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            if max_dev is not None and dev + 1 > max_dev:
                continue
            for alt in range(ars[i] - 1, 0, -1):
                stack.append((cs[:i] + [alt], ars[: i + 1]))
    return n


def isolated(fn, *args):
    """fn(*args) in a forked child, so that whatever state it leaves behind in
    the library's modules dies with it.  Returns its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', fn(*args)))
            except Violation as e:
                data = pickle.dumps(('violation', str(e), e.detail))
            except BaseException as e:
                data = pickle.dumps(('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc()))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    res = pickle.loads(data)
    if res[0] == 'ok':
        return res[1]
    if res[0] == 'violation':
        raise Violation(res[1], **res[2])
    raise Violation('unexpected %s' % res[1], trace=res[2])


# ------------------------------------------------------------------ units pool
UNIT_CPU = 150  # seconds of CPU before a unit counts as not terminating
DEADLINE = 780


def _run_child(mod, unit, tier, seed, wfd):
    hang = {'n': 0}

    def on_prof(sig, frame):
        hang['n'] += 1
        raise Hang('unit exceeded %d s of CPU time' % UNIT_CPU)

    cpu = getattr(mod, 'UNIT_CPU', UNIT_CPU if tier == 'quick' else 20 * UNIT_CPU)
    signal.signal(signal.SIGPROF, on_prof)
    signal.setitimer(signal.ITIMER_PROF, cpu, 5)
    ctx = Ctx(unit, tier, seed)
    res = {'unit': unit}
    try:
        env.reset()
        mod.run_unit(ctx, unit)
        if STATE.diverged:
            raise Divergence(STATE.diverged)
        res['status'] = 'ok'
    except Violation as e:
        res['status'] = 'violation'
        res['msg'] = str(e)
        res['detail'] = {k: _short(v, 4000) for k, v in e.detail.items()}
        res['tb'] = traceback.format_exc()[-3000:]
    except Divergence as e:
        res['status'] = 'error'
        res['msg'] = 'harness divergence: %s' % e
        res['tb'] = traceback.format_exc()[-3000:]
    except (ImportError, MemoryError) as e:
        res['status'] = 'error'
        res['msg'] = repr(e)
        res['tb'] = traceback.format_exc()[-3000:]
    except BaseException as e:
        # On the unchanged tree no execution raises here, so an exception is a
        # behaviour of the library the property does not allow, unless a name
        # the harness needs is simply gone.
        tb = e.__traceback__
        files = [f.filename for f in traceback.extract_tb(tb)]
        in_bit = any(f.startswith(os.path.realpath(env.REPO) + '/bit') for f in files)
        missing = isinstance(e, AttributeError) and not in_bit and 'module' in str(e)
        res['status'] = 'error' if missing else 'violation'
        res['msg'] = 'unexpected %s: %s' % (type(e).__name__, _short(str(e)))
        res['tb'] = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    res.update(execs=ctx.execs, calls=ctx.calls, states=ctx.states, outcomes=ctx.outcomes,
               samples=ctx.samples, capped=ctx.capped, cur=ctx.cur, known=ctx.known)
    try:
        data = pickle.dumps(res)
    except Exception:
        res['cur'] = _short(res['cur'], 2000)
        res['unit'] = unit
        data = pickle.dumps(res)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


def run_units(mod, units, tier, seed, jobs=None, wall=None, stop_on_violation=True, verbose=False):
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4
    wall = wall or DEADLINE
    t0 = _now()
    pending = list(enumerate(units))[::-1]
    live = {}  # rfd -> (pid, idx, chunks, start)
    results = {}
    stop = False
    sys.stdout.flush()
    sys.stderr.flush()
    while pending or live:
        while pending and len(live) < jobs and not stop:
            if _now() - t0 > wall:
                stop = True
                break
            i, u = pending.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in list(live):
                    os.close(fd)
                try:
                    _run_child(mod, u, tier, seed, w)
                finally:
                    os._exit(3)
            os.close(w)
            live[r] = (pid, i, [], _now())
        if not live:
            break
        rl, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rl:
            b = os.read(fd, 1 << 20)
            pid, i, ch, st = live[fd]
            if b:
                ch.append(b)
                continue
            os.close(fd)
            del live[fd]
            os.waitpid(pid, 0)
            try:
                res = pickle.loads(b''.join(ch))
            except Exception:
                res = {'unit': units[i], 'status': 'error', 'msg': 'worker died', 'execs': 0, 'calls': 0,
                       'states': set(), 'outcomes': {}, 'samples': [], 'capped': [], 'cur': None, 'known': {}}
            res['wall'] = _now() - st
            results[i] = res
            if verbose:
                print('  unit %d %s %.1fs execs=%d %s' % (i, res['status'], res['wall'], res['execs'], _short(units[i], 100)), flush=True)
            if res['status'] == 'violation' and stop_on_violation:
                stop = True
        if stop and any(r['status'] == 'violation' for r in results.values()):
            for fd, (pid, i, ch, st) in live.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
            live = {}
            break
        if _now() - t0 > wall + 60:
            for fd, (pid, i, ch, st) in live.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                results[i] = {'unit': units[i], 'status': 'cut', 'msg': 'wall limit', 'execs': 0, 'calls': 0, 'states': set(),
                              'outcomes': {}, 'samples': [], 'capped': ['unit cut at the wall limit'], 'cur': None, 'known': {}, 'wall': 0}
            live = {}
            break
    return results, _now() - t0
