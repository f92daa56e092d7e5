"""C18: every provider client against a model of the provider, for enumerated
address states; the node client included."""
import itertools

from .. import env, fakenet, harvest, lib, netlib, refbtc as ref
from ..explorer import Violation, isolated
from ..netlib import NETS, ORDER, QUERIES, call, norm, truth
from bit.network import NetworkAPI
from bit.exceptions import BitcoinNodeException

LEVEL = 'model_checking'
BOUNDS = ('every service x network x query; all entry counts 0..130 and every count within 2 of a page or harvested-constant boundary up to 2001, 3000..5001 (thorough: to 10001, all counts to 1100 for small-page '
          'services); all confirmed/unconfirmed patterns of <=5 entries and every position of one unconfirmed entry in 60; amounts: 0..3000 and ~300 boundary values to 21M BTC; confirmations 0..3, '
          'large; output indexes to 2^32-1; several outputs of one transaction; every address kind; spent outputs; lookups of present, absent and similar ids; every sequence of 3 (thorough 4) queries (2 addresses x 2 networks x kinds) and chain events (block, reorganisation, receipt, confirmation, spend)')
ASSUMPTIONS = ['the services and the node answer in their documented formats, with the page sizes documented when the clients were written',
               'a node lists transactions in no particular order', 'a client may decline (connection error) where its service cannot give a complete answer: more than 49 unconfirmed transactions (Blockstream), 1000 or more coins (Blockchain.info)']
TECHNIQUE = 'exhaustive enumeration of address states of an explicit provider model, each replayed against the real clients'

SERVICES = [(p, net) for net in NETS for p in ('blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain') if not (p == 'blockchain' and net == 'test')]
SERVICES += [('rpc', net) for net in NETS]


def supported(p, net):
    return [q for q in QUERIES if p == 'rpc' or p in ORDER[q, net]]


def counts(tier):
    c = set(range(0, 131)) | {149, 150, 151, 199, 200, 201, 249, 250, 251, 499, 500, 501, 999, 1000, 1001, 1002, 1999, 2000, 2001}
    c |= set(harvest.near(0, 2001, files=['bit/network/services.py'], d=2))
    c |= {3000, 3001, 4000, 4001, 5001} if tier == 'quick' else {2999, 3000, 3001, 3999, 4000, 4001, 4999, 5000, 5001, 6001, 7001, 8001, 9001, 10001}
    return sorted(c)


def units(tier):
    us = []
    for p, net in SERVICES:
        cs = counts(tier)
        for k in range(4):
            us.append({'t': 'count', 'p': p, 'net': net, 'ns': cs[k::4]})
        us += [{'t': t, 'p': p, 'net': net} for t in ('pattern', 'amount', 'fields', 'addr', 'tx', 'spent')]
        if net == 'main':
            us += [{'t': 'hist', 'p': p, 'net': net, 'first': i, 'len': 3 if tier == 'quick' else 4} for i in range(len(hist_ops(p)))]
        if tier != 'quick' and p in ('blockstream', 'bitcore', 'blockchain', 'rpc'):
            us += [{'t': 'count', 'p': p, 'net': net, 'ns': list(range(131 + k, 1100, 8))} for k in range(8)]
    return us


EVENTS = ('block', 'reorg', 'receive', 'confirm', 'spend')


def hist_ops(p):
    ops = [('ask', net, k, q) for net in NETS if (p, net) in SERVICES for k in (0, 1) for q in supported(p, net)]
    return ops + [('event', e) for e in EVENTS]


class Service:
    """One service is up, the others are down."""

    def __init__(self, p, net):
        self.p, self.net = p, net
        self.world = fakenet.World()
        if p == 'rpc':
            self.world.nodes[('http', 'node.example:8332')] = net
            NetworkAPI.connect_to_node('u', 'p', host='node.example', port=8332, testnet=net == 'test')

    def handler(self, q):
        prov = self.world.route(q)[0]
        if prov.split(':')[0] != self.p:
            raise netlib.RX.ConnectionError('down')
        return self.world.handler(q)

    def clear(self):
        self.world.net[self.net].clear()
        self.world.tx[self.net].clear()
        self.world.unknown.clear()
        self.world.seen.clear()


def declined(p, q, a):
    if p == 'blockstream' and q == 'history':
        return sum(1 for _, h in a.history if h is None) >= 50
    if p == 'blockchain' and q == 'unspent':
        return len(a.coins) >= 1000
    return False


def ask(ctx, s, q, arg, script, desc):
    env.NET.reset(s.handler)
    ctx.case((s.p, s.net, q, desc))
    a = s.world.net[s.net].get(script) or fakenet.Addr()
    want = truth(s.world, q, s.net, arg, script)
    try:
        res = call(q, s.net, arg)
        got = norm(q, res)
    except ConnectionError:
        if declined(s.p, q, a):
            ctx.outcome('%s declined' % q)
            return
        raise Violation('%s %s query of %s failed although the service answered' % (s.p, q, s.net), unknown=s.world.unknown[:5])
    except BitcoinNodeException:
        if s.p == 'rpc' and q == 'tx' and want is None:
            ctx.outcome('node error: no such transaction')
            return
        raise
    ctx.step(len(env.NET.log))
    if got == want:
        ctx.check(type(got) is type(want), 'type of the answer: %s' % type(got))
        if q == 'history' and s.p != 'rpc':
            ctx.check(a.in_order(res), '%s lists the history not from newest to oldest' % s.p)
        ctx.outcome('%s %s' % (s.p, q))
        return
    if s.p == 'rpc' and a.spent:
        if q == 'balance' and got == a.received:
            ctx.known_finding('rpc-balance-total-received', 'the balance from a node is %d, the total received, although only %d is left' % (got, want))
            return
        if q == 'history' and got == sorted(fakenet.receives(a)):
            ctx.known_finding('rpc-history-receives-only', 'the history from a node lacks the transactions that only spend from the address')
            return
    raise Violation('%s reports %s of the %s address wrongly: got %s, expected %s' % (s.p, q, s.net, explain(got, want), explain(want, got)), requests=[repr(r) for r in env.NET.log[:6]])


def explain(x, y):
    if isinstance(x, list) and isinstance(y, list):
        only = [e for e in x if e not in y][:3]
        return '%d entries (only here: %r)' % (len(x), only)
    return repr(x)[:200]


def all_queries(ctx, s, addr, script, desc):
    for q in supported(s.p, s.net):
        if q != 'tx':
            ask(ctx, s, q, addr, script, desc)


def history(ctx, u):
    """Every sequence of queries for two addresses on both networks, at
    different heights, with blocks, a reorganisation, payments and spends in
    between: each answer describes the chain as it is at that moment."""
    p = u['p']
    ops = hist_ops(p)
    wals = {(net, k): lib.key_wallet(net, secret=lib.SECRETS[k]) for net in NETS for k in (0, 1)}
    tid = fakenet.txid_for
    s = Service(p, 'main')
    if p == 'rpc':
        s.world.nodes[('http', 'node.example:18332')] = 'test'
        NetworkAPI.connect_to_node('u', 'p', host='node.example', port=18332, testnet=True)

    def start():
        s.world.net = {'main': {}, 'test': {}}
        s.world.tx = {'main': {}, 'test': {}}
        s.world.unknown.clear()
        s.world.seen.clear()
        s.world.tip = {'main': 800000, 'test': 800123}
        for (net, k), w in wals.items():
            for i in range(2 + k):
                # both networks carry the same transaction ids, as forks and replays do
                s.world.add(net, w.script, tid('h', k, i), i, 1000 * (1 + k) + 10 * i + (net == 'test'), 799990 - i if i != 1 else None)
            s.world.tx[net][tid('h', k, 0)] = '%02x%02x' % (k, net == 'test') * 4

    def event(e, n):
        for net in NETS:
            if e == 'block':
                s.world.tip[net] += 1
            elif e == 'reorg':
                s.world.tip[net] -= 2
            for k in (0, 1):
                a = s.world.addr(net, wals[net, k].script)
                if e == 'receive':
                    s.world.add(net, wals[net, k].script, tid('new', n, k), n, 77 + n + k, None)
                elif e == 'confirm':
                    for c in a.coins:
                        c.height = 799995 if c.height is None else c.height
                    a.history = [(t, 799995 if h is None else h) for t, h in a.history]
                elif e == 'spend' and p != 'rpc' and a.coins:
                    c = a.coins.pop(0)
                    a.spent += c.amount
                    a.history.insert(0, (tid('spender', c.txid, n), None))

    def step(op, n):
        if op[0] == 'event':
            event(op[1], n)
            return
        _, net, k, q = op
        s.net = net
        ask(ctx, s, q, tid('h', k, 0) if q == 'tx' else wals[net, k].addr, wals[net, k].script, ('history', u['first'], seq))

    rest = range(len(ops))
    for tail in itertools.product(rest, repeat=u['len'] - 1):
        if ops[tail[-1]][0] == 'event':
            continue
        seq = (u['first'],) + tail
        start()
        for n, i in enumerate(seq):
            step(ops[i], n)


def run_unit(ctx, u):
    if u['t'] == 'hist':
        env.reset()
        return history(ctx, u)
    env.reset()
    s = Service(u['p'], u['net'])
    net = u['net']
    w = lib.key_wallet(net)
    addr, script = w.addr, w.script
    T = u['t']
    TIP = fakenet.TIP
    tid = fakenet.txid_for

    def fill(rows):
        s.clear()
        for i, (txid, n, amount, h) in enumerate(rows):
            s.world.add(net, script, txid, n, amount, h, history=False)
        a = s.world.addr(net, script)
        seen = set()
        for txid, n, amount, h in rows:
            if txid not in seen:
                seen.add(txid)
                a.history.append((txid, h))

    if T == 'count':
        for n in u['ns']:
            fill([(tid('c', i), i % 5, 1000 + i, TIP - i) for i in range(n)])
            all_queries(ctx, s, addr, script, ('count', n))
            if n in (24, 25, 26, 49, 50, 51, 75, 100) or n % 50 == 1:
                # newest 3 unconfirmed
                fill([(tid('c', i), i % 5, 1000 + i, None if i < 3 else TIP - i) for i in range(n)])
                all_queries(ctx, s, addr, script, ('count, some unconfirmed', n))
    elif T == 'pattern':
        for n in range(1, 6):
            for pat in itertools.product((None, TIP, TIP - 1, 1), repeat=n) if n <= 3 else itertools.product((None, TIP - 2), repeat=n):
                fill([(tid('p', i), i, 5000 + i, h) for i, h in enumerate(pat)])
                all_queries(ctx, s, addr, script, ('pattern', pat))
        for k in range(60):
            fill([(tid('q', i), 0, 5000 + i, None if i == k else TIP - i) for i in range(60)])
            all_queries(ctx, s, addr, script, ('one unconfirmed', k))
        for k in (0, 1, 2, 48, 49, 50, 51, 60):
            fill([(tid('q', i), 0, 5000 + i, None if i < k else TIP - i) for i in range(80)])
            all_queries(ctx, s, addr, script, ('k unconfirmed', k))
        # several outputs of one transaction, same index in several
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                fill([(tid('m', i), j, 700 + 10 * i + j, TIP - i) for i in range(n) for j in range(m)])
                all_queries(ctx, s, addr, script, ('outputs', n, m))
    elif T == 'amount':
        amts = sorted(set(range(0, 3001)) | set(harvest.amounts()))
        for lo in range(0, len(amts), 40):
            fill([(tid('a', i), i % 3, x, TIP - 3) for i, x in enumerate(amts[lo:lo + 40])])
            ask(ctx, s, 'unspent', addr, script, ('amounts', amts[lo]))
        for x in amts if ctx.tier != 'quick' else amts[::7] + harvest.amounts():
            fill([(tid('b'), 1, x, TIP)])
            ask(ctx, s, 'balance', addr, script, ('balance', x))
            if x > 3000:
                ask(ctx, s, 'unspent', addr, script, ('amount', x))
        for x, y in itertools.product(harvest.amounts(hi=21 * 10**14)[::9], repeat=2):
            if x + y <= 21 * 10**14:
                fill([(tid('b'), 1, x, TIP), (tid('c'), 0, y, None)])
                ask(ctx, s, 'balance', addr, script, ('sum', x, y))
    elif T == 'fields':
        for n in (0, 1, 2, 9, 10, 255, 256, 65535, 2**31 - 1, 2**31, 2**32 - 1):
            for h in (None, TIP, TIP - 1, TIP - 2, TIP - 5, TIP - 100, 1, 0):
                fill([(tid('f', n), n, 4321, h)])
                all_queries(ctx, s, addr, script, ('fields', n, h))
        # chains of every length, the test networks' are longer
        for tip in (0, 1, 2, 99, 100, 101, 2016, 65535, 210000, 999998, 999999, 10**6, 10**6 + 1, 2500000, 4700000, 9000000):
            s.world.tip[net] = tip
            for h in sorted({0, min(1, tip), tip // 2, max(tip - 1, 0), tip}):
                fill([(tid('f', 1), 1, 4321, h), (tid('f', 2), 0, 17, None)])
                all_queries(ctx, s, addr, script, ('height', tip, h))
        s.world.tip[net] = TIP
        for t in ('00' * 32, 'ff' * 32, '00' * 31 + '01', '01' + '00' * 31, 'ab' * 31 + '00'):
            fill([(t, 1, 99, TIP - 1)])
            all_queries(ctx, s, addr, script, ('txid', t))
    elif T == 'addr':
        cand = [(w.addr, w.script), (w.seg_addr, w.seg_script)] + [(d, lib.spk(d)) for d in lib.dests(net) if d == d.lower() or d[0] in '123mn']
        for x, sc in cand:
            for rows in ([], [(tid('z'), 0, 555, TIP - 1)], [(tid('z', i), i, 600 + i, None if i % 2 else TIP - i) for i in range(28)]):
                s.clear()
                for t, n, amt, h in rows:
                    s.world.add(net, sc, t, n, amt, h)
                # someone else's entries are never reported
                s.world.add(net, b'\x51', tid('other'), 7, 123456, TIP)
                s.world.add(net, script if sc != script else w.seg_script, tid('other2'), 7, 98765, TIP)
                all_queries(ctx, s, x, sc, ('address', x, len(rows)))
    elif T == 'tx':
        known = [tid('k', i) for i in range(4)]
        s.clear()
        for i, t in enumerate(known):
            s.world.tx[net][t] = ref.mktx([(tid('in', i), i, b'\x51' * i, 0, [])], [(i, b'\x52')]).full().hex()
        for k in (9_999, 50_000, 130_000, 390_000):
            # up to the largest transaction nodes relay
            known.append(tid('long', k))
            s.world.tx[net][known[-1]] = ref.mktx([(tid('in', k), 0, b'', 0, [])], [(1, b'\x51' * (k // 40))] * 40).full().hex()
        other = 'test' if net == 'main' else 'main'
        absent = [tid('k', 99), known[0][:-1] + ('0' if known[0][-1] != '0' else '1'), '0' * 64]
        s.world.tx[other][absent[0]] = 'dead'
        for t in known + absent:
            if 'tx' in supported(s.p, net):
                ask(ctx, s, 'tx', t, script, ('lookup', t))
    elif T == 'spent':
        for k in range(4):
            for n in range(4):
                s.clear()
                for i in range(k):
                    s.world.spend(net, script, tid('s', i), 10000 + i, TIP - 50 - i)
                for i in range(n):
                    s.world.add(net, script, tid('n', i), i, 300 + i, None if i == 2 else TIP - i)
                s.world.addr(net, script)
                all_queries(ctx, s, addr, script, ('spent', k, n))
