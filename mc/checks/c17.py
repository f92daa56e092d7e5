"""C17: every pattern of provider failures, at every request of every query."""
from .. import env, fakenet, lib, netlib, refbtc as ref
from ..explorer import explore
from ..netlib import NETS, ORDER, QUERIES, Worlds, alphabet, call, groups, is_answer, norm, truth

LEVEL = 'fault_enumeration'
RULE = 'an execution counts when at least one fault was injected or a provider was asked; distinct by (query, network, address state, sequence of faults met)'
BOUNDS = ('each query x network; address states with 0, 1, 3, 27, 51, 101 entries and one and two full pages of every service, each service holding different data; faults: refused, connect/read '
          'timeout, TLS, proxy, 10 error statuses, an answer cut off, garbled or not JSON; every request position: all combinations of <=2 faults (thorough 3) over the full alphabet, all combinations of any number over a 3-fault '
          'alphabet; every service with all earlier ones down, <=2 faults of the full alphabet and every page position; services that decline excessive addresses')
TECHNIQUE = 'exhaustive fault injection into the real code at every request position, against per-service data models'
ASSUMPTIONS = ['a service answers a request completely and in its documented format or fails it; documented "not found" answers are answers']

SIZES = [0, 1, 3, 27, 51, 101]


def units(tier):
    us = []
    for net in NETS:
        for q in QUERIES:
            provs = ORDER[q, net]
            if q in ('balance', 'tx'):
                for hit in (0, 1):
                    us.append({'t': 'few', 'q': q, 'net': net, 'n': hit, 'dev': 2 if tier == 'quick' else 3})
                    us.append({'t': 'all', 'q': q, 'net': net, 'n': hit})
                    us += [{'t': 'down', 'q': q, 'net': net, 'n': hit, 'p': p} for p in range(1, len(provs))]
                continue
            for n in SIZES:
                us.append({'t': 'few', 'q': q, 'net': net, 'n': n, 'dev': 2 if tier == 'quick' or n > 3 else 3})
                if n in (0, 1, 3, 27):
                    us.append({'t': 'all', 'q': q, 'net': net, 'n': n})
            us += [{'t': 'down', 'q': q, 'net': net, 'n': n, 'p': p} for p in range(1, len(provs)) for n in (0, 3, 27)]
            for p in range(len(provs)):
                for n in (999, 1000, 1001, 2000, 2001):
                    us.append({'t': 'page', 'q': q, 'net': net, 'n': n, 'p': p})
    us += [{'t': 'excess', 'q': q, 'net': net} for net in NETS for q in ('unspent', 'history')]
    us += [{'t': 'seq', 'net': net} for net in NETS]
    return us


def make(q, net, n, script):
    """Each service has n entries (balances, history, coins), all different."""
    W = Worlds(ORDER[q, net])
    for k, (p, w) in enumerate(W.w.items()):
        for i in range(n):
            h = fakenet.TIP - i if i % 7 or n < 3 else None
            if q == 'history' and i >= 45 * 7:
                h = fakenet.TIP - i
            w.add(net, script, fakenet.txid_for(p, net, i), (i * 3 + k) % 4, 1000 * (k + 1) + i, h)
    return W


def setup(q, net, n):
    wal = lib.key_wallet(net)
    if q == 'tx':
        W = Worlds(ORDER[q, net])
        arg = fakenet.txid_for('wanted', net)
        for k, (p, w) in enumerate(W.w.items()):
            if n:
                w.tx[net][arg] = '0100%02x' % k * 4
        return W, arg, None
    W = make(q, net, n, wal.script)
    return W, wal.addr, wal.script


def judge(ctx, W, q, net, arg, script, declines=()):
    provs = ORDER[q, net]
    try:
        res = ('ok', call(q, net, arg))
    except ConnectionError as e:
        res = ('down', None)
    except env.TooManyRequests:
        raise
    except Exception as e:
        ctx.fail('the query raised %s (%s), which is no connection error' % (type(e).__name__, e), log=W.log[:20])
    ctx.step(len(W.log))
    asked = groups(W.log)
    ctx.eq(asked, provs[:len(asked)], 'services asked, in order', log=W.log[:20])
    bad = {p for p, *_, f, t in W.log if f} | set(declines)
    for p, n_, k, f, t in W.log:
        ctx.eq(n_, net, 'network of the request to %s' % p)
    if res[0] == 'down':
        ctx.check(set(provs) <= bad, 'connection error although %s did not fail' % [p for p in provs if p not in bad], log=W.log[:20])
        ctx.outcome('%s all failed' % q)
        return
    ctx.check(asked, 'an answer without asking any service')
    src = asked[-1]
    for p in asked[:-1]:
        ctx.check(p in bad, '%s answered fully but its answer was not used' % p, log=W.log[:20])
    got = norm(q, res[1])
    want = truth(W.w[src], q, net, arg, script)
    if got != want:
        ctx.fail('the answer is not the complete answer of %s: got %s, expected %s' % (src, repr(got)[:300], repr(want)[:300]), log=W.log[:20])
    ctx.outcome('%s from service %d' % (q, provs.index(src)))


def enumerate_faults(ctx, u, W, arg, script, alpha, dev, base=None, declines=(), limit=None):
    q, net = u['q'], u['net']

    def one(ch):
        W.clear()
        env.NET.reset(W.handler)
        met = []

        def fault(prov, n_, kind, pos, req):
            if base is not None:
                f = base(prov, n_, kind, pos)
                if f is not None:
                    return f
            c = ch.choose(len(alpha) + 1)
            if not c:
                return None
            f = alpha[c - 1]()
            if isinstance(f, netlib.RX.ReadTimeout) and req.timeout is None:
                ctx.fail('a request to %s has no time limit: a silent service blocks the query for ever' % prov)
            if isinstance(f, tuple) and (is_answer(prov, n_, kind, q, pos, f[0]) or f[0] == 200 and (prov, kind) in netlib.TEXT):
                f = (503, 'down')
            met.append((prov, kind, pos, c))
            return f

        W.fault = fault
        ctx.case((u, 'choices', tuple(ch.prefix)), key=(q, net, u.get('n'), u.get('p'), u['t'], tuple(ch.prefix)))
        judge(ctx, W, q, net, arg, script, declines)
        ctx.cur = (u, met)

    explore(one, max_dev=dev, limit=limit, ctx=ctx)


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'few':
        W, arg, script = setup(u['q'], u['net'], u['n'])
        enumerate_faults(ctx, u, W, arg, script, alphabet(True), u['dev'])
    elif T == 'all':
        W, arg, script = setup(u['q'], u['net'], u['n'])
        k = 3 if u['n'] <= 3 else 1
        enumerate_faults(ctx, u, W, arg, script, alphabet(False)[:k], None)
    elif T == 'down':
        W, arg, script = setup(u['q'], u['net'], u['n'])
        dn = set(ORDER[u['q'], u['net']][:u['p']])
        for how in (lambda: (503, 'down'), lambda: netlib.RX.ConnectTimeout('t')):
            enumerate_faults(ctx, u, W, arg, script, alphabet(True), 2, base=lambda p, n_, k, pos: how() if p in dn else None)
    elif T == 'page':
        W, arg, script = setup(u['q'], u['net'], u['n'])
        provs = ORDER[u['q'], u['net']]
        down = set(provs[:u['p']])
        declines = set()
        if u['q'] == 'unspent' and u['n'] >= 1000:
            declines.add('blockchain')
        enumerate_faults(ctx, u, W, arg, script, alphabet(True) if u['n'] == 1001 else [lambda: netlib.RX.ReadTimeout('t'), lambda: (500, 'x'), lambda: (404, 'x')] if u['n'] < 1500 else [lambda: (502, 'x')], 1,
                         base=lambda p, n_, k, pos: (503, 'down') if p in down else None, declines=declines)
    elif T == 'excess':
        excess(ctx, u)
    elif T == 'seq':
        sequences(ctx, u)


def excess(ctx, u):
    """Services that refuse addresses they cannot answer for completely."""
    q, net = u['q'], u['net']
    wal = lib.key_wallet(net)
    for n in (1, 49, 50, 51, 120) if q == 'history' else (1, 5, 6, 7, 40):
        W = Worlds(ORDER[q, net])
        declines = set()
        for k, (p, w) in enumerate(W.w.items()):
            for i in range(n):
                w.add(net, wal.script, fakenet.txid_for(p, net, i), i % 3, 700 + i, None if q == 'history' else fakenet.TIP - i)
            if q == 'unspent':
                w.excess = 5
        if (q == 'history' and n >= 50) or (q == 'unspent' and n > 5):
            declines.add('blockstream')
        for down in range(len(ORDER[q, net]) + 1):
            dn = set(ORDER[q, net][:down])
            if q == 'history':
                dn = {p for p in dn if p != 'blockstream'}
            uu = dict(u, n=n, p=down)
            enumerate_faults(ctx, uu, W, wal.addr, wal.script, alphabet(False), 1, base=lambda p, n_, k, pos: (503, 'down') if p in dn else None, declines=declines)


def sequences(ctx, u):
    """Failures leave nothing behind: every sequence of three queries, each
    under every set of services being down, gives what the query alone gives."""
    net = u['net']
    wal = lib.key_wallet(net)
    names = ['blockchair', 'blockstream', 'bitcore', 'smartbit'] + (['blockchain'] if net == 'main' else [])
    W = Worlds(names)
    arg = {'tx': fakenet.txid_for('t')}
    for k, (p, w) in enumerate(W.w.items()):
        for i in range(2):
            w.add(net, wal.script, fakenet.txid_for(p, net, i), i, 1000 * (k + 1) + i, fakenet.TIP - i)
        w.tx[net][arg['tx']] = 'ab%02x' % k
    sets = [frozenset(), frozenset(names[:1]), frozenset(names[:2]), frozenset(names[1:2]), frozenset(names)]
    import itertools

    ops = [(q, s) for q in QUERIES for s in sets]
    for seq in itertools.product(ops, repeat=2):
        ctx.case((net, [(q, sorted(s)) for q, s in seq]), calls=0)
        for q, s in seq:
            W.clear()
            W.fault = lambda p, n_, k, pos, req: netlib.RX.ConnectionError('x') if p in s else None
            env.NET.reset(W.handler)
            judge(ctx, W, q, net, arg.get(q, wal.addr), wal.script)
