"""C22: every history of conversions, waits, cache-time changes and outages up
to the depth bound, against a one-line model of a rate cache.  Every fetch is
answered with a rate never used before, so a result tells which fetch it
came from."""
import itertools
from fractions import Fraction

import requests

from .. import env, fakenet
from ..explorer import Violation, isolated
from .c21 import FIAT, PREC, plain
import bit
from bit.network import currency_to_satoshi, currency_to_satoshi_cached, satoshi_to_currency, satoshi_to_currency_cached

RX = requests.exceptions
LEVEL = 'model_checking'
BOUNDS = ('14 operations (cached conversions both ways in two currencies, uncached conversion, waits of cache time -1/4, 0, +1/4 s, first/second/both/no service down, cache time 0/10/60): every '
          'sequence ending in a conversion to depth 5 (thorough 6), every sequence to depth 3 (thorough 4) from a new process; every fault of 22 kinds (19 at the text service) at either service; every ordered pair of 21 currencies')
ASSUMPTIONS = ['services answer instantly, with well-formed documents; at an age of exactly the cache time either behaviour is allowed']
TECHNIQUE = 'exhaustive enumeration of operation, clock and fault histories on the real cache against a cache model'

CONV = ['usd', 'eur', 'usd-back', 'raw']
OTHER = ['wait-', 'wait=', 'wait+', 'first down', 'second down', 'both down', 'up', 'cache 0', 'cache 10', 'cache 60']
OPS = CONV + OTHER
BIG = 10**14


class Rates:
    def __init__(self, start=1000):
        self.next = start
        self.log = []  # (service, currency, served rate or None)
        self.down = ()
        self.fail = lambda prov: (503, 'unavailable')
        self.money = fakenet.Money()
        self.money.fault = self.fault

    def fault(self, prov, cur, i):
        if prov in self.down:
            self.log.append((prov, cur, None))
            f = self.fail(prov)
            return f
        self.next += 1
        r = 1000 + self.next * 500_009 % 899_981  # up and down, all different
        p = 10**14 // r  # rounded down: exactly r after truncation, even as a float
        self.money.price = {prov: {cur: '%d.%06d' % divmod(p, 10**6)}}
        self.log.append((prov, cur, r))
        return None

    def take(self):
        l, self.log = self.log, []
        self.money.log = []
        env.NET.log = []
        return l


class Model:
    def __init__(self, R):
        self.R = R
        self.served = {}  # currency -> {rate: when}
        self.cached = {}  # currency -> time of the last fetch made by a cached conversion
        self.failed = set()
        self.ct = 60

    def op(self, ctx, o):
        S, R = env.STATE, self.R
        if o == 'wait-':
            S.now += max(self.ct - 0.25, 0)
        elif o == 'wait=':
            S.now += self.ct
        elif o == 'wait+':
            S.now += self.ct + 0.25
        elif o == 'first down':
            R.down = ('bitpay',)
        elif o == 'second down':
            R.down = ('blockchain',)
        elif o == 'both down':
            R.down = ('bitpay', 'blockchain')
        elif o == 'up':
            R.down = ()
        elif o.startswith('cache '):
            self.ct = int(o[6:])
            bit.set_rate_cache_time(self.ct)
        elif o == 'raw':
            self.conv('usd', False, False)
        elif o.endswith('-back'):
            self.conv(o[:-5], True, True)
        else:
            self.conv(o, True, False)

    def conv(self, cur, cached, back):
        R, now = self.R, env.STATE.now
        R.take()
        prec = PREC.get(cur, 2)
        try:
            if back:
                res = (satoshi_to_currency_cached if cached else satoshi_to_currency)(BIG, cur)
            else:
                res = (currency_to_satoshi_cached if cached else currency_to_satoshi)(1, cur)
            err = None
        except Exception as e:
            err, res = e, None
        log = R.take()
        got = [x for x in log if x[2] is not None]
        what = '%s conversion of %s' % ('cached' if cached else 'plain', cur)
        for prov, c, r in log:
            if c != cur:
                raise Violation('a %s asked %s for %s' % (what, prov, c))
        last = self.cached.get(cur) if cached else None
        mine = self.served.setdefault(cur, {})
        if last is not None and now - last < self.ct and cur not in self.failed:
            if log:
                raise Violation('%s fetched again %s s after a fetch, the cache time being %s s: %r' % (what, now - last, self.ct, log))
        for prov, c, r in got:
            mine[r] = now
        if log:
            order = [x[0] for x in log]
            want = ['bitpay'] + (['blockchain'] if 'bitpay' in R.down else [])
            if order != want:
                raise Violation('%s asked %r, the order of services is %r (down: %r)' % (what, order, want, R.down))
        if err is not None:
            if got or not log:
                raise Violation('%s failed with %r although %r' % (what, err, log or 'nothing was asked'))
            if not isinstance(err, (ConnectionError, RX.ConnectionError)):
                raise Violation('%s with both services down raises %r, not a connection error' % (what, err))
            if cached:
                self.failed.add(cur)
            return
        if back:
            # bitpay's quotation is rounded down to 10**-6
            rate = [r for r in mine if 10**14 // r - Fraction(1, 10**prec) <= Fraction(res) <= Fraction(10**14, r)]
        else:
            rate = [r for r in mine if r == res]
        if not rate:
            raise Violation('%s gave %r, which no rate served for %s implies (served: %r)' % (what, res, cur, mine))
        age = now - mine[rate[-1]]
        if cached and age > self.ct or not cached and age > 0:
            raise Violation('%s used a rate %s s old, the cache time being %s s' % (what, age, self.ct if cached else 0))
        if got and rate[-1] != got[-1][2]:
            raise Violation('%s fetched %r but used %r' % (what, got, rate[-1]))
        if cached and got:
            self.cached[cur] = now
            self.failed.discard(cur)


def begin(R):
    env.STATE.now += 10**6
    R.down = ()
    R.take()
    bit.set_rate_cache_time(60)


def units(tier):
    us = [{'t': 'seq', 'first': a, 'second': b} for a in OPS for b in OPS]
    us += [{'t': 'new', 'first': a} for a in OPS]
    us += [{'t': 'fault', 'k': k} for k in range(4)]
    us += [{'t': 'pairs', 'cur': c} for c in FIAT]
    return us


def run_seq(R, ops, ctx=None):
    M = Model(R)
    for i, o in enumerate(ops):
        try:
            M.op(ctx, o)
        except Violation as v:
            raise Violation('after %r: %s' % (list(ops[:i + 1]), v))
    return M


def fresh(ops):
    env.reset()
    R = Rates()
    env.NET.reset(R.money.handler)
    run_seq(R, ops)
    return True


FAULTS = [lambda: RX.ConnectionError('refused'), lambda: RX.ReadTimeout('t'), lambda: RX.ConnectTimeout('t'), lambda: RX.Timeout('t'), lambda: RX.SSLError('s'), lambda: RX.ProxyError('p'),
          lambda: (400, '{}'), lambda: (401, ''), lambda: (403, '<html>'), lambda: (404, '{"error":"no rate"}'), lambda: (429, 'slow down'), lambda: (500, ''), lambda: (502, '<html>'), lambda: (503, '0.5'),
          lambda: (504, '{"data":{"rate":1}}'), lambda: (418, '1.0'), lambda: RX.ChunkedEncodingError('cut off'), lambda: RX.ContentDecodingError('garbled'), lambda: RX.TooManyRedirects('r')]
# one of the two services answers in JSON
UNREADABLE = [lambda: (200, '<html>maintenance</html>'), lambda: (200, ''), lambda: (200, '{"data":{"rate":7')]


def run_unit(ctx, u):
    env.reset()
    R = Rates()
    env.NET.reset(R.money.handler, budget=10**9)
    T = u['t']
    if T == 'seq':
        depth = 5 if ctx.tier == 'quick' else 6
        for n in range(0, depth - 1):
            for mid in itertools.product(OPS, repeat=max(n - 1, 0)):
                for last in (CONV if n else [None]):
                    ops = (u['first'], u['second']) + mid + ((last,) if last else ())
                    if ops[-1] not in CONV:
                        continue
                    begin(R)
                    ctx.case(ops, calls=len(ops))
                    M = run_seq(R, ops)
                    ctx.state((M.ct, R.down, tuple(sorted((c, env.STATE.now - t) for c, t in M.cached.items())), tuple(sorted(M.failed))))
        ctx.outcome('cache model followed')
    elif T == 'new':
        depth = 3 if ctx.tier == 'quick' else 4
        for n in range(0, depth):
            for rest in itertools.product(OPS, repeat=n):
                ops = (u['first'],) + rest
                if ops[-1] in CONV:
                    ctx.case(('new process', ops), calls=len(ops))
                    isolated(fresh, ops)
        ctx.outcome('cache model followed from a new process')
    elif T == 'fault':
        for f in (FAULTS + UNREADABLE)[u['k']::4]:
            for g in FAULTS:
                for down in (('bitpay',), ('blockchain',), ('bitpay', 'blockchain')):
                    for ops in (('usd', 'usd', 'up', 'usd', 'usd-back'), ('usd-back', 'wait+', 'eur', 'up', 'usd', 'eur', 'usd'), ('raw', 'usd', 'raw', 'up', 'raw', 'usd')):
                        begin(R)
                        run_seq(R, ('usd',))  # a working fetch first, long ago
                        begin(R)
                        R.down = down
                        R.fail = lambda p: f() if p == 'bitpay' else g()
                        ctx.case((repr(f()), repr(g()), down, ops), calls=len(ops))
                        run_seq(R, ops)
        ctx.outcome('faults skipped')
    elif T == 'pairs':
        a = u['cur']
        for b in FIAT:
            for down in ((), ('bitpay',)):
                for ops in ((a, b, a, b), (a, b + '-back', a + '-back', b), (a, 'wait-', b, 'wait-', a, b), (a, 'both down', b, a, 'up', b, a)):
                    begin(R)
                    R.down = down
                    ctx.case((ops, down), calls=len(ops))
                    run_seq(R, ops)
        ctx.outcome('currencies kept apart')
