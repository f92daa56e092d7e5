"""C23: every history of fee queries, waits, cache-time changes and outages up
to the depth bound.  Every answer of the service carries values never used
before, so a fee tells which answer and which kind it came from."""
import itertools

import requests

from .. import env, fakenet
from ..explorer import Violation, isolated
import bit
from bit.network import get_fee, get_fee_cached

RX = requests.exceptions
LEVEL = 'model_checking'
BOUNDS = ('11 operations (fast and hour queries, uncached query, waits of cache time -1/4, 0, +1/4 s, service up/down, cache time 0/10/600): every sequence ending in a query to depth 5 (thorough 7), every '
          'sequence to depth 4 (thorough 5) from a new process; 44 kinds of service failure (unreachable, error status, unreadable, no usable fee) in each of 6 histories, from a new process and later; every fee from 1 to 3000, powers to 10^9, and fractions')
ASSUMPTIONS = ['the service answers instantly; its fees are non-zero numbers; at an age of exactly the cache time either behaviour is allowed']
TECHNIQUE = 'exhaustive enumeration of operation, clock and fault histories on the real cache against a cache model'

QRY = ['fast', 'hour']
OPS = QRY + ['raw', 'wait-', 'wait=', 'wait+', 'down', 'up', 'cache 0', 'cache 10', 'cache 600']
DEFAULT = {'fast': 72, 'hour': 62}


class Service:
    def __init__(self):
        self.n = 0
        self.down = False
        self.fail = lambda s: (503, '')
        self.log = []
        self.served = []  # (time, fast, hour)
        self.money = fakenet.Money()
        self.money.fault = self.fault

    def fault(self, prov, cur, i):
        if prov != 'fees':
            raise Violation('a fee query asked %s' % prov)
        self.n += 1
        # up and down, unlike the last thousand; fast ones even, hourly ones odd, no default
        fast, hour = 2 + 2 * (self.n * 617 % 1009), 1 + 2 * (self.n * 421 % 1013)
        if fast in (62, 72):
            fast += 4000
        self.money.fast, self.money.hour = fast, hour
        if self.down:
            self.log.append(False)
            return self.fail(self)
        self.log.append(True)
        self.served.append((env.STATE.now, fast, hour))
        return None


class Model:
    def __init__(self, S, known):
        self.S = S
        S.served = S.served[-2:] if known else []
        self.known = known  # values may exist from before
        self.ct = 600
        self.mine = {'fast': None, 'hour': None}  # last successful fetch by a query of that kind

    def op(self, o):
        T, S = env.STATE, self.S
        if o == 'wait-':
            T.now += max(self.ct - 0.25, 0)
        elif o == 'wait=':
            T.now += self.ct
        elif o == 'wait+':
            T.now += self.ct + 0.25
        elif o in ('down', 'up'):
            S.down = o == 'down'
        elif o.startswith('cache '):
            self.ct = int(o[6:])
            bit.set_fee_cache_time(self.ct)
        elif o == 'raw':
            if not S.down:
                for k in ('fast', 'hour'):
                    f = get_fee(fast=k == 'fast')
                    if f != S.served[-1][1 if k == 'fast' else 2]:
                        raise Violation('get_fee(%s) gave %r, the service %r' % (k, f, S.served[-1]))
                S.log = []
        else:
            self.query(o)

    def query(self, kind):
        S, now = self.S, env.STATE.now
        S.log = []
        k = 1 if kind == 'fast' else 2
        before = [(s[0], s[k]) for s in S.served]
        got = get_fee_cached(fast=kind == 'fast')
        log, S.log = S.log, []
        env.NET.log = []
        S.money.log = []
        S.served = S.served[-40:]
        last = self.mine[kind]
        if last is not None and now - last[0] < self.ct and log:
            raise Violation('the %s fee was fetched again %s s after a fetch, the cache time being %s s' % (kind, now - last[0], self.ct))
        if len(log) > 1:
            raise Violation('one %s fee query made %d requests' % (kind, len(log)))
        if log == [True]:
            if got != S.served[-1][k]:
                raise Violation('the %s fee is %r, the service just said %r' % (kind, got, S.served[-1]))
            self.mine[kind] = (now, got)
            return
        if not log:
            hit = [t for t, v in before if v == got]
            if not hit:
                raise Violation('the %s fee is %r without a request, the service never gave that (%r)' % (kind, got, before))
            if now - hit[-1] > self.ct:
                raise Violation('the %s fee is %s s old and was not refreshed, the cache time being %s s' % (kind, now - hit[-1], self.ct))
            return
        # the service failed: the last known value of this kind, else the default
        ok = {v for t, v in before if last is None or t >= last[0]}
        if last is not None:
            ok.add(last[1])
        elif not self.known:
            ok.add(DEFAULT[kind])
        if last is None and self.known:
            ok = None  # a value from before this history: only its kind is known
            if got in (DEFAULT['hour' if kind == 'fast' else 'fast'],) or type(got) is not int or (got % 2 == 0) != (kind == 'fast'):
                raise Violation('with the service down the %s fee is %r' % (kind, got))
        if ok is not None and got not in ok:
            raise Violation('with the service down the %s fee is %r, last known %r' % (kind, got, sorted(ok)))


def begin(S):
    env.STATE.now += 10**7
    S.down = False
    S.fail = lambda s: (503, '')
    S.log = []
    bit.set_fee_cache_time(600)


def run_seq(S, ops, known):
    M = Model(S, known)
    for i, o in enumerate(ops):
        try:
            M.op(o)
        except Violation as v:
            raise Violation('after %r: %s' % (list(ops[:i + 1]), v))
        except Exception as e:
            raise Violation('after %r: %s: %s' % (list(ops[:i + 1]), type(e).__name__, e))
    return M


def fresh(ops, fault=None):
    env.reset()
    S = Service()
    env.NET.reset(S.money.handler)
    if fault is not None:
        S.fail = lambda s: FAULTS[fault]()
    run_seq(S, ops, False)
    return True


def body(**kw):
    import json

    return 200, json.dumps(kw)


FAULTS = [lambda: RX.ConnectionError('refused'), lambda: RX.ReadTimeout('t'), lambda: RX.ConnectTimeout('t'), lambda: RX.SSLError('s'), lambda: RX.ProxyError('p'), lambda: RX.TooManyRedirects('r'),
          lambda: RX.ChunkedEncodingError('c'), lambda: RX.ContentDecodingError('d'), lambda: RX.RequestException('x'), lambda: RX.HTTPError('h')]
FAULTS += [(lambda s: lambda: (s, '{"fastestFee": 3, "hourFee": 4}'))(s) for s in (400, 401, 403, 404, 418, 429, 500, 502, 503, 504)]
FAULTS += [lambda: (500, ''), lambda: (429, '<html>'), lambda: (200, ''), lambda: (200, '<html>maintenance</html>'), lambda: (200, '{"fastestFee": 5'), lambda: (200, '{}'), lambda: (200, '[]'),
           lambda: (200, 'null'), lambda: body(error='x'), lambda: (200, '"try again"')]
# values nobody could pay
FAULTS += [(lambda v: lambda: (200, '{"fastestFee": %s, "hourFee": %s}' % (v, v)))(v) for v in ('null', '0', '-1', '-12.5', '0.0', '"12"', '""', '[]', '[5]', '{}', '{"sat": 5}', 'NaN', 'Infinity', '-Infinity')]
HIST = [('down', 'fast', 'hour', 'up', 'fast', 'hour'), ('fast', 'wait+', 'down', 'fast', 'hour', 'fast', 'up', 'fast', 'hour'), ('hour', 'wait+', 'down', 'hour', 'fast', 'wait+', 'hour', 'up', 'hour', 'fast'),
        ('fast', 'hour', 'wait+', 'down', 'fast', 'hour', 'fast', 'hour', 'up', 'wait-', 'fast', 'hour'), ('down', 'hour', 'wait+', 'hour', 'fast', 'up', 'hour', 'wait-', 'hour', 'down', 'wait+', 'hour', 'fast'),
        ('fast', 'down', 'cache 0', 'fast', 'wait+', 'fast', 'up', 'fast', 'hour')]


def units(tier):
    us = [{'t': 'seq', 'first': a, 'second': b} for a in OPS for b in OPS]
    us += [{'t': 'new', 'first': a, 'second': b} for a in OPS for b in OPS]
    us += [{'t': 'fault', 'k': k} for k in range(len(FAULTS))]
    us.append({'t': 'values'})
    return us


def run_unit(ctx, u):
    env.reset()
    S = Service()
    env.NET.reset(S.money.handler, budget=10**9)
    T = u['t']
    if T == 'seq':
        begin(S)
        run_seq(S, ('fast', 'hour'), False)
        depth = 5 if ctx.tier == 'quick' else 7
        for n in range(0, depth - 1):
            for mid in itertools.product(OPS, repeat=max(n - 1, 0)):
                for last in (QRY if n else [None]):
                    ops = (u['first'], u['second']) + mid + ((last,) if last else ())
                    if ops[-1] not in QRY:
                        continue
                    begin(S)
                    ctx.case(ops, calls=len(ops))
                    M = run_seq(S, ops, True)
                    ctx.state((M.ct, S.down, tuple((k, v and env.STATE.now - v[0]) for k, v in M.mine.items())))
        ctx.outcome('cache model followed')
    elif T == 'new':
        depth = 4 if ctx.tier == 'quick' else 5
        for n in range(0, depth - 1):
            for rest in itertools.product(OPS, repeat=n):
                ops = (u['first'], u['second']) + rest
                if ops[-1] in QRY:
                    ctx.case(('new process', ops), calls=len(ops))
                    isolated(fresh, ops)
        ctx.outcome('cache model followed from a new process')
    elif T == 'values':
        # whatever positive number the service names is the fee
        env.NET.reset(lambda q: (200, '{"fastestFee": %s, "halfHourFee": 7, "hourFee": %s, "economyFee": 3, "minimumFee": 1}' % pair), budget=10**9)
        nums = list(range(1, 3001)) + [4999, 5000, 5001, 9999, 10**4, 65535, 65536, 10**5, 10**6, 2**31, 10**9] + [0.5, 0.001, 1.5, 2.25, 12.75, 61.9, 72.1, 1000.5, 1e-6]
        for i, v in enumerate(nums):
            o = nums[(i * 7 + 3) % len(nums)]
            for pair, kinds in (((v, o), ('fast', 'hour')), ((o, v), ('hour', 'fast'))):
                env.STATE.now += 10**7
                ctx.case(('value', pair, kinds), calls=2)
                for k in kinds:
                    got = bit.network.get_fee_cached(fast=k == 'fast')
                    ctx.eq(got, pair[k == 'hour'], 'the %s fee' % k)
        ctx.outcome('value passed on')
    else:
        k = u['k']
        for ops in HIST:
            ctx.case(('new process', repr(FAULTS[k]()), ops), calls=len(ops))
            isolated(fresh, ops, k)
        begin(S)
        run_seq(S, ('fast', 'hour'), False)
        for a in HIST:
            for b in HIST:
                begin(S)
                S.fail = lambda s: FAULTS[k]()
                ctx.case((repr(FAULTS[k]()), a, b), calls=len(a + b))
                run_seq(S, a + b, True)
        ctx.outcome('failure survived')
