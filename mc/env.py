"""Closes the system: every source of nondeterminism the library can reach
(randomness, clock, network) is owned by the harness *before* the library under
test is imported, so that every execution is a function of explicit choices.

Import order matters: the standard library, requests and coincurve are imported
first (they keep the real primitives where they need them), then the seams are
installed, then ``bit`` is imported from /repo's current working tree, always
compiled from source (no byte code is read or written).
"""
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'

REPO = os.environ.get('VERIF_REPO', '/repo')
for _v in ('http_proxy', 'https_proxy', 'HTTP_PROXY', 'HTTPS_PROXY', 'all_proxy', 'ALL_PROXY', 'REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE'):
    os.environ.pop(_v, None)
os.environ['no_proxy'] = '*'
os.environ['NO_PROXY'] = '*'
os.environ['NETRC'] = '/nonexistent-netrc'

import decimal  # noqa
import json  # noqa
import logging  # noqa
import multiprocessing  # noqa
import multiprocessing.queues  # noqa
import queue  # noqa
import random  # noqa
import secrets  # noqa
import threading  # noqa
import time  # noqa

import requests  # noqa
import requests.adapters  # noqa
import coincurve  # noqa
import coincurve.utils  # noqa

logging.disable(logging.CRITICAL)

real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep
real_Semaphore = threading.Semaphore
real_Lock = threading.Lock


def _from_library():
    f = sys._getframe(2)
    return f.f_globals.get('__name__', '').split('.')[0] == 'bit'


def _lock(reentrant, real):
    def make(*a, **k):
        if _from_library():
            from .sched import CoopLock

            return CoopLock(reentrant)
        return real(*a, **k)

    return make


threading.Lock = _lock(False, threading.Lock)
threading.RLock = _lock(True, threading.RLock)


# ---------------------------------------------------------------- randomness
class Divergence(Exception):
    """The same choice prefix led to a different choice point, so the code
    under test remembers something between executions.  The executions are
    still judged; but a unit in which it happened is not exhaustive, and ends
    without an answer if none of them is a violation."""


class Chooser:
    """Answers choice points: replays ``prefix``, then always answers 0."""

    def __init__(self, prefix=(), arities=None, strict=False):
        self.strict = strict
        self.prefix = list(prefix)
        self.arities = arities
        self.trace = []  # (choice, arity)

    def choose(self, n, tag=None):
        if n <= 0:
            raise ValueError('empty range')
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n or (self.arities is not None and i < len(self.arities) and self.arities[i] != n):
            what = 'choice %d: arity %d, prefix %r' % (i, n, self.prefix)
            if self.strict:
                raise Divergence(what)
            STATE.diverged = STATE.diverged or what
            c = min(c, n - 1)
        self.trace.append((c, n))
        return c

    @property
    def choices(self):
        return [c for c, _ in self.trace]


class _State:
    chooser = Chooser()
    diverged = None
    now = 1_700_000_000.0
    urandom = staticmethod(os.urandom)  # the system's randomness; a check may script it
    seeded = []
    guessable = False  # large draws of the ordinary generator give a constant


STATE = _State()


def _urandom(n):
    return STATE.urandom(n)


# before the library is imported, so that any way of importing it is covered
os.urandom = coincurve.utils.urandom = random._urandom = _urandom
if hasattr(os, 'getrandom'):
    os.getrandom = lambda n, flags=0: STATE.urandom(n)


class ChoiceRandom(random.Random):
    def _randbelow(self, n):
        return STATE.chooser.choose(n, 'rand')

    def random(self):
        return (0.0, 0.25, 0.5, 0.75, 0.999999)[STATE.chooser.choose(5, 'random')]

    def getrandbits(self, k):
        if k > 4:
            if STATE.guessable:
                return (0x9E3779B97F4A7C15F39CC0605CEDC8341082276BF3A27251F86C6A11D0C18E95 << 64 | 0x6A09E667F3BCC908) & ((1 << k) - 1)
            raise Divergence('getrandbits(%d) cannot be enumerated' % k)
        return STATE.chooser.choose(1 << k, 'bits')

    def seed(self, *a, **k):
        return None


class SysRandom(ChoiceRandom):
    """The system's generator: small draws are choices like any other, large
    ones (key material) come from os.urandom, which a check may script."""

    def _randbelow(self, n):
        if n <= 1 << 32:
            return super()._randbelow(n)
        k = n.bit_length()
        while True:
            r = self.getrandbits(k)
            if r < n:
                return r

    def getrandbits(self, k):
        if k <= 4:
            return super().getrandbits(k)
        n = (k + 7) // 8
        return int.from_bytes(os.urandom(n), 'big') >> (n * 8 - k)

    def randbytes(self, n):
        return os.urandom(n)


_inst = ChoiceRandom()
_sys = SysRandom()
for _name in ('random', 'uniform', 'randint', 'choice', 'randrange', 'sample', 'shuffle', 'choices', 'getrandbits', 'randbytes'):
    setattr(random, _name, getattr(_inst, _name))
for _name in ('seed', 'setstate'):
    # nobody seeds the generator here: the call is only noted
    setattr(random, _name, lambda *a, _n=_name, **k: STATE.seeded.append(_n))
random.SystemRandom = SysRandom
secrets.SystemRandom = SysRandom
secrets.randbelow = _sys._randbelow
secrets.choice = _sys.choice
secrets.randbits = _sys.getrandbits
secrets.token_bytes = lambda n=32: os.urandom(32 if n is None else n)
secrets.token_hex = lambda n=32: os.urandom(32 if n is None else n).hex()


# --------------------------------------------------------------------- clock
def _vtime():
    return STATE.now


def _vsleep(s):
    STATE.now += s


time.time = _vtime
time.monotonic = _vtime
time.perf_counter = _vtime
time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(STATE.now * 10**9)
time.sleep = _vsleep


# ------------------------------------------------------------------- network
class Net:
    """The network as the library sees it: ``handler(req)`` answers."""

    def __init__(self):
        self.reset()

    def reset(self, handler=None, budget=20000):
        self.handler = handler
        self.log = []
        self.budget = budget


NET = Net()


class Req:
    __slots__ = ('method', 'url', 'host', 'path', 'query', 'body', 'headers', 'timeout', 'verify')

    def __repr__(self):
        return '%s %s' % (self.method, self.url)


class TooManyRequests(Exception):
    """The library keeps issuing requests past any bound: no termination."""


def _send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    from urllib.parse import urlsplit, parse_qsl

    u = urlsplit(request.url)
    q = Req()
    q.method, q.url, q.host, q.path = request.method, request.url, u.netloc, u.path
    q.query = dict(parse_qsl(u.query, keep_blank_values=True))
    q.body = request.body
    q.headers = dict(request.headers)
    q.timeout, q.verify = timeout, verify
    NET.log.append(q)
    if len(NET.log) > NET.budget:
        raise TooManyRequests('more than %d requests' % NET.budget)
    if NET.handler is None:
        raise requests.exceptions.ConnectionError('network is down')
    ans = NET.handler(q)
    status, body = ans[0], ans[1]
    r = requests.Response()
    r.status_code = status
    r._content = body if isinstance(body, bytes) else body.encode()
    r.url = request.url
    r.request = request
    r.reason = 'OK' if status == 200 else 'Error %d' % status
    r.encoding = 'utf-8'
    r.headers['content-type'] = 'application/json'
    r.connection = self
    return r


requests.adapters.HTTPAdapter.send = _send

# ------------------------------------------------------ the library under test
sys.path.insert(0, REPO)


def load():
    import bit  # noqa

    f = os.path.realpath(bit.__file__)
    root = os.path.realpath(REPO) + os.sep
    if not f.startswith(root):
        raise RuntimeError('bit was imported from %s, not from %s' % (f, root))
    return bit


def reset(now=1_700_000_000.0, handler=None, choices=()):
    STATE.now = now
    STATE.chooser = Chooser(choices)
    NET.reset(handler)
    decimal.setcontext(CONTEXT.copy())


decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN))
bit = load()
import bit.network  # noqa

CONTEXT = decimal.getcontext().copy()  # as importing the library leaves it
