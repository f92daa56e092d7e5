"""C30: the time limit of every request, and silent services everywhere."""
import itertools
import math

from .. import env, fakenet, lib, netlib, refbtc as ref
from ..explorer import Violation, explore, isolated
from ..netlib import NETS, ORDER, QUERIES, RX, Worlds, call, norm, truth
from . import c17
import bit
from bit.network import NetworkAPI, currency_to_satoshi, currency_to_satoshi_cached, get_fee, get_fee_cached, satoshi_to_currency, satoshi_to_currency_cached

LEVEL = 'fault_enumeration'
RULE = 'an execution counts when a request was made; distinct by (call, network, address state, settings made before, silent services and pages)'
BOUNDS = ('each query and broadcast x network x {default, 6 limits set} x all combinations of silent services at all requests (0, 1, 3, 27 entries), one silent page of multi-page answers of every service; '
          'every currency and fee kind with all subsets of silent services; 12 wallet calls x 4 wallet kinds x every subset of 7 silent hosts; all histories of up to 3 (thorough 4) settings and calls; 56 ways to connect a node for the other network')
ASSUMPTIONS = ['requests to a node the user connected are not public services and may take as long as the node needs', 'requests enforces the time limit it is given']
TECHNIQUE = 'exhaustive fault injection of silent services into the real code, time limits monitored at every request'

SETTINGS = [3, 0.5, 1, 60, 10, 2.75]
DEFAULT = 10
HOSTS = ('api.blockchair.com', 'blockstream.info', 'api.bitcore.io', 'smartbit', 'blockchain.info', 'bitpay.com', 'mempool.space')
CHAIN = HOSTS[:5]
CURS = ['usd', 'eur', 'gbp', 'jpy', 'cny', 'cad', 'aud', 'nzd', 'rub', 'brl', 'chf', 'sek', 'dkk', 'isk', 'pln', 'hkd', 'krw', 'sgd', 'thb', 'twd', 'clp']


class Limit:
    """Monitors the limit of every request."""

    def __init__(self, ctx):
        self.ctx, self.want = ctx, DEFAULT

    def set(self, x):
        bit.set_service_timeout(x)
        self.want = x

    def seen(self, q):
        chain = not (q.host in ('bitpay.com', 'mempool.space') or (q.host == 'blockchain.info' and q.path == '/tobtc'))
        t = q.timeout
        parts = list(t) if isinstance(t, (tuple, list)) else [t]
        for x in parts:
            if x is None or not isinstance(x, (int, float)) or not (0 < x < math.inf):
                raise Violation('the request %r has no time limit (%r): a silent service blocks the call for ever' % (q, t))
        if chain and max(parts) != self.want:
            raise Violation('the request %r is limited to %r seconds, %r were set' % (q, t, self.want))
        return max(parts)


def units(tier):
    us = []
    for net in NETS:
        for q in QUERIES + ('push',):
            for n in ((0, 1) if q in ('balance', 'tx', 'push') else (0, 1, 3, 27)):
                us.append({'t': 'query', 'net': net, 'q': q, 'n': n})
            if q in ('history', 'unspent'):
                us += [{'t': 'page', 'net': net, 'q': q, 'p': p} for p in range(len(ORDER[q, net]))]
    us += [{'t': 'rates', 'k': k} for k in range(4)] + [{'t': 'fees'}]
    us += [{'t': 'wallet', 'net': net, 'ms': ms} for net in NETS for ms in (False, True)]
    us += [{'t': 'nodes', 'net': net} for net in NETS]
    us += [{'t': 'hist', 'a': a, 'L': 3 if tier == 'quick' else 4} for a in range(len(OPS))]
    return us


def run_unit(ctx, u):
    env.reset()
    {'query': query, 'page': page, 'rates': rates, 'fees': fees, 'wallet': wallet, 'hist': hist, 'nodes': nodes}[u['t']](ctx, u)


def explore_silence(ctx, u, W, q, net, arg, script, M, dev, base=None, tag=None, declines=()):
    def one(ch):
        W.clear()
        env.NET.reset(W.handler)
        t0 = env.STATE.now
        spent = [0]

        def fault(prov, n_, kind, pos, req):
            lim = M.seen(req)
            if base is not None and base(prov):
                env.STATE.now += lim
                return RX.ReadTimeout('read timed out')
            c = ch.choose(3)
            if c:
                env.STATE.now += lim
                spent[0] += 1
            return [None, RX.ReadTimeout('read timed out'), RX.ConnectTimeout('connect timed out')][c]

        W.fault = fault
        ctx.case((u, tag, tuple(ch.prefix)), key=(u['t'], q, net, u.get('n'), u.get('p'), tag, tuple(ch.prefix)))
        if q == 'push':
            try:
                res = call(q, net, arg)
                ok = True
            except ConnectionError:
                ok = False
            ctx.step(len(W.log))
            some = any(not f for *_, f, t in W.log)
            ctx.check(ok == some, 'broadcast %s although %s' % ('succeeds' if ok else 'fails', 'all services are silent' if ok else 'one accepts'))
            ctx.outcome('push %s' % ok)
        else:
            c17.judge(ctx, W, q, net, arg, script, declines)

    return explore(one, max_dev=dev, ctx=ctx)


def setup(q, net, n):
    if q != 'push':
        return c17.setup(q, net, n)
    W = Worlds(ORDER[q, net])
    w = lib.key_wallet(net)
    tx = w.obj.create_transaction([(lib.dests(net)[0], 1000 + n, 'satoshi')], fee=1, absolute_fee=True, unspents=[w.coin('L', 5000, 0)])
    return W, tx, None


def query(ctx, u):
    q, net, n = u['q'], u['net'], u['n']
    W, arg, script = setup(q, net, n)
    M = Limit(ctx)
    explore_silence(ctx, u, W, q, net, arg, script, M, None if n <= 3 else 2, tag='default')
    for s in SETTINGS:
        M.set(s)
        explore_silence(ctx, u, W, q, net, arg, script, M, None if n <= 1 else 2 if n == 3 else 1, tag=s)


def page(ctx, u):
    q, net = u['q'], u['net']
    provs = ORDER[q, net]
    p = provs[u['p']]
    n = {'blockchair': 1001, 'smartbit': 1001, 'blockstream': 60 if q == 'history' else 5, 'blockchain': 120, 'bitcore': 201}[p]
    W, arg, script = setup(q, net, n)
    M = Limit(ctx)
    before = set(provs[:u['p']])
    for s in (None, 3):
        if s:
            M.set(s)
        explore_silence(ctx, u, W, q, net, arg, script, M, 1, base=lambda x: x in before, tag=s, declines={'blockchain'} if q == 'unspent' and n >= 1000 else ())


class Money(fakenet.Money):
    def __init__(self, M, silent):
        super().__init__(price={p: {c: 100 + 3 * i for i, c in enumerate(CURS)} for p in ('bitpay', 'blockchain')})
        self.M, self.silent = M, silent

    def handler(self, q):
        lim = self.M.seen(q)
        if self.route(q) and self.route(q)[0] in self.silent:
            env.STATE.now += lim
            raise RX.ReadTimeout('read timed out')
        return super().handler(q)


def rates(ctx, u):
    M = Limit(ctx)
    calls = {'to': lambda c: currency_to_satoshi(5, c), 'to cached': lambda c: currency_to_satoshi_cached(5, c), 'from': lambda c: satoshi_to_currency(10**8, c), 'from cached': lambda c: satoshi_to_currency_cached(10**8, c)}
    for c in CURS[u['k']::4]:
        for silent in ((), ('bitpay',), ('blockchain',), ('bitpay', 'blockchain')):
            for name, f in calls.items():
                ctx.case((c, silent, name))

                def go():
                    env.reset()
                    mon = Money(M, silent)
                    env.NET.reset(mon.handler)
                    try:
                        f(c)
                        r = 'ok'
                    except ConnectionError:
                        r = 'down'
                    return r, len(mon.log) + 1

                r, n = isolated(go)
                ctx.step(n)
                ctx.eq(r, 'down' if len(silent) == 2 else 'ok', '%s %s with %r silent' % (name, c, silent))
                ctx.outcome('rate %s' % r)


def fees(ctx, u):
    M = Limit(ctx)
    for seq in itertools.product([(k, s) for k in ('fast', 'hour', 'plain') for s in (False, True)], repeat=3):
        ctx.case(('fees', seq))

        def go():
            env.reset()
            out = []
            for k, s in seq:
                mon = Money(M, ('fees',) if s else ())
                env.NET.reset(mon.handler)
                env.STATE.now += 10000
                try:
                    r = get_fee(True) if k == 'plain' else get_fee_cached(k == 'fast')
                except Exception as e:
                    if k != 'plain' or not s:
                        raise Violation('%s fee query raises %r with the service %s' % (k, e, 'silent' if s else 'up'))
                    r = 'error'
                out.append(r)
            return out

        out = isolated(go)
        ctx.step(3)
        for (k, s), r in zip(seq, out):
            ctx.check(r == 'error' or (type(r) is int and r > 0), 'fee is %r' % (r,))
        ctx.outcome('fees')


def host_of(q):
    return 'smartbit' if 'smartbit' in q.host else q.host


CALLS = ['balance', 'balance usd', 'coins', 'history', 'create', 'create usd', 'send', 'send eur', 'prepare', 'fee', 'get_fee', 'as jpy']


def wallet(ctx, u):
    net = u['net']
    M = Limit(ctx)
    ws = lib.multi_wallets(net, 1, lib.SECRETS[:2]) if u['ms'] else [lib.key_wallet(net)]
    w = ws[0]
    d = lib.dests(net)[0]
    for c in CALLS:
        if u['ms'] and c.startswith('send'):
            continue
        for k in range(len(HOSTS) + 1):
            for silent in itertools.combinations(HOSTS, k):
                ctx.case((net, u['ms'], c, silent))

                def go():
                    env.reset()
                    W = fakenet.World()
                    for script in (w.script, w.seg_script):
                        W.add(net, script, fakenet.txid_for(script), 0, 10**9, fakenet.TIP - 3)
                    mon = fakenet.Money(price={p: {x: 20000 + i for i, x in enumerate(CURS)} for p in ('bitpay', 'blockchain')})
                    inner = fakenet.combined(mon, W)

                    def handler(q):
                        lim = M.seen(q)
                        if host_of(q) in silent:
                            env.STATE.now += lim
                            raise RX.ReadTimeout('read timed out')
                        return inner(q)

                    env.NET.reset(handler)
                    try:
                        do(w, c, d)
                        r = 'ok'
                    except ConnectionError:
                        r = 'down'
                    except RX.Timeout:
                        if c != 'get_fee':
                            raise
                        r = 'down'
                    return r, len(env.NET.log)

                r, n = isolated(go)
                ctx.step(n)
                ctx.check(n > 0 or c == 'as jpy', 'no request')
                up = [h for h in HOSTS if h not in silent and not (net == 'test' and h == 'blockchain.info')]
                chain = any(h in CHAIN for h in up if c != 'history' or 'bitcore' not in h)
                rate = not ('bitpay.com' in silent and 'blockchain.info' in silent)
                need = {'fee': True, 'get_fee': 'mempool.space' not in silent, 'as jpy': rate, 'balance usd': chain and rate, 'create usd': chain and rate, 'send eur': chain and rate}.get(c, chain)
                ctx.eq(r, 'ok' if need else 'down', '%s with %r silent' % (c, silent))
                ctx.outcome('%s %s' % (c, r))


def do(w, c, d):
    o = w.obj
    if c == 'balance':
        o.get_balance()
    elif c == 'balance usd':
        o.get_balance('usd')
    elif c == 'coins':
        o.get_unspents()
    elif c == 'history':
        o.get_transactions()
    elif c == 'create':
        o.create_transaction([(d, 1000, 'satoshi')])
    elif c == 'create usd':
        o.create_transaction([(d, 1, 'usd')])
    elif c == 'send':
        o.send([(d, 1000, 'satoshi')])
    elif c == 'send eur':
        o.send([(d, 1, 'eur')])
    elif c == 'prepare':
        type(o).prepare_transaction(o.address, [(d, 1000, 'satoshi')])
    elif c == 'fee':
        get_fee_cached()
    elif c == 'get_fee':
        get_fee()
    elif c == 'as jpy':
        o.balance_as('jpy')


def nodes(ctx, u):
    """A node for one network, however it is reached, leaves the limits of the
    other network's services alone."""
    net = u['net']
    other = 'test' if net == 'main' else 'main'
    w = lib.key_wallet(net)
    tx = w.obj.create_transaction([(lib.dests(net)[0], 1000, 'satoshi')], fee=1, absolute_fee=True, unspents=[w.coin('L', 5000, 0)])
    for host, port, https, limit, queried in itertools.product(('localhost', '127.0.0.1', 'n.example', '::1'), (1, 80, 443, 8332, 18332, 18443, 65535), (False, True), (None, 4), (False, True)):
        ctx.case(('nodes', net, host, port, https, limit, queried))

        def go():
            env.reset()
            M = Limit(ctx)
            W = fakenet.World()
            W.add(net, w.script, fakenet.txid_for('a'), 0, 10**6)
            inner = fakenet.combined(fakenet.Money(price={'bitpay': {'usd': 20000}, 'blockchain': {'usd': 20000}}), W)
            own = [False]

            def handler(q):
                if own[0]:
                    return 200, '{"result": [], "error": null, "id": "bit"}'
                M.seen(q)
                return inner(q)

            env.NET.reset(handler)
            if limit:
                M.set(limit)
            own[0] = True
            h = '[::1]' if host == '::1' else host
            NetworkAPI.connect_to_node('u', 'p', host=h, port=port, use_https=https, testnet=other == 'test')
            if queried:
                call('unspent', other, lib.key_wallet(other).addr)
            own[0] = False
            for f in (w.obj.get_unspents, w.obj.get_transactions, w.obj.get_balance, lambda: call('push', net, tx), lambda: call('tx', net, fakenet.txid_for('zz')),
                      lambda: currency_to_satoshi(1, 'usd'), get_fee_cached):
                f()
            return len(env.NET.log)

        ctx.step(isolated(go))
        ctx.outcome('node elsewhere')


# -------- histories of settings, calls and failures
OPS = ['set 3', 'set 7.25', 'set 60', 'coins', 'history', 'tx', 'balance test', 'push', 'rate', 'fee', 'silent', 'node']


def hist(ctx, u):
    w, t = lib.key_wallet('main'), lib.key_wallet('test')
    tx = w.obj.create_transaction([(lib.dests('main')[0], 1000, 'satoshi')], fee=1, absolute_fee=True, unspents=[w.coin('L', 5000, 0)])
    for rest in itertools.product(range(len(OPS)), repeat=u['L'] - 1):
        ops = [OPS[i] for i in (u['a'],) + rest]
        ctx.case(('history', tuple(ops)))

        def go():
            env.reset()
            M = Limit(ctx)
            W = fakenet.World()
            W.add('main', w.script, fakenet.txid_for('a'), 0, 10**6)
            W.nodes[('http', 'n.example:1')] = 'test'
            mon = fakenet.Money(price={'bitpay': {'usd': 20000}, 'blockchain': {'usd': 20000}})
            inner = fakenet.combined(mon, W)
            quiet = [False]

            def handler(q):
                if 'n.example' not in q.host:
                    lim = M.seen(q)
                    if quiet[0]:
                        env.STATE.now += lim
                        raise RX.ReadTimeout('t')
                return inner(q)

            env.NET.reset(handler)
            for op in ops + ['coins', 'history', 'push', 'rate', 'fee']:
                if op.startswith('set '):
                    M.set(float(op[4:]) if '.' in op else int(op[4:]))
                elif op == 'silent':
                    quiet[0] = not quiet[0]
                elif op == 'node':
                    NetworkAPI.connect_to_node('u', 'p', host='n.example', port=1, testnet=True)
                else:
                    env.STATE.now += 10**5
                    try:
                        {'coins': lambda: w.obj.get_unspents(), 'history': lambda: w.obj.get_transactions(), 'tx': lambda: call('tx', 'main', fakenet.txid_for('zz')),
                         'balance test': lambda: t.obj.get_balance(), 'push': lambda: call('push', 'main', tx), 'rate': lambda: currency_to_satoshi_cached(1, 'usd'), 'fee': lambda: get_fee_cached()}[op]()
                    except ConnectionError:
                        if not quiet[0]:
                            raise Violation('%s fails although every service answers' % op)
            return len(env.NET.log)

        ctx.step(isolated(go))
    ctx.outcome('histories')
