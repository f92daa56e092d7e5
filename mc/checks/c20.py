"""C20: histories of node connections; where does every call go?"""
import base64
import itertools
import json

from .. import env, fakenet, lib, netlib, refbtc as ref
from ..build import unsigned_hex
from ..explorer import Violation, isolated
from ..netlib import NETS, QUERIES, RX, call, norm, truth
from bit.network import NetworkAPI
from bit.exceptions import BitcoinNodeException

LEVEL = 'model_checking'
BOUNDS = ('all histories of <=3 (thorough 4) connections over 8 node descriptions (2 networks x 4: plain, https + wallet path, same host with other credentials, other port), all calls for both '
          'networks after every step, with everything up and with the nodes or the public services down; every wallet class x every network operation in all 4 connection states; every printable '
          'ASCII character in user and password; hosts, ports, paths, https forms; all pairs and triples of 17 node descriptions that differ in one field')
ASSUMPTIONS = ['credentials are printable ASCII, without a colon in the user name']
TECHNIQUE = 'explicit-state exploration of connection histories on the real code, every request traced to its destination'

NODES = {
    'mA': dict(user='alice', password='pw1', host='node-a.example', port=8332, testnet=False),
    'mB': dict(user='bob', password='p:w/@2', host='node-b.example', port=443, use_https=True, testnet=False, path='wallet/main'),
    'mC': dict(user='carol', password='pw3', host='node-a.example', port=8332, testnet=False, path='wallet/other'),
    'mD': dict(user='alice', password='pw1', host='node-a.example', port=18332, testnet=False),
    'tA': dict(user='tina', password='pw4', host='node-a.example', port=18332, testnet=True),
    'tB': dict(user='tom', password='pw5', host='node-t.example', port=18443, use_https='/etc/ssl/own.pem', testnet=True),
    'tC': dict(user='tim', password='pw6', host='node-a.example', port=8332, testnet=True, path='wallet/test'),
    'tD': dict(user='tina', password='pw4', host='127.0.0.1', port=18332, testnet=True),
}


def net_of(n):
    return 'test' if NODES[n]['testnet'] else 'main'


def where(d):
    """(scheme, host:port, path, Authorization, certificate check) of a node description."""
    auth = 'Basic ' + base64.b64encode(('%s:%s' % (d['user'], d['password'])).encode()).decode()
    return ('https' if d.get('use_https') else 'http', '%s:%s' % (d.get('host', 'localhost'), d.get('port', 8332)), '/' + d.get('path', ''), auth, d.get('use_https') or None)


def seen_as(q):
    host = q.host.rpartition('@')[2]
    scheme = q.url.split(':')[0]
    if ':' not in host.rsplit(']')[-1]:
        host += ':443' if scheme == 'https' else ':80'
    return scheme, host, q.path, q.headers.get('Authorization'), q.verify if scheme == 'https' else None


class Net:
    """Public services plus all the nodes, each with its own chain data."""

    def __init__(self):
        self.pub = fakenet.World()
        self.node = {n: fakenet.World() for n in NODES}
        for n, w in self.node.items():
            w.nodes[('x', 'any')] = net_of(n)
        self.dest = []
        self.down = set()

    def handler(self, q):
        me = seen_as(q)
        for n, d in NODES.items():
            if me == where(d):
                self.dest.append(('node', n))
                if n in self.down:
                    raise RX.ConnectionError('node down')
                w = self.node[n]
                r = w.rpc(net_of(n), q)
                return r
        prov, net, kind, fn = self.pub.route(q)
        self.dest.append(('public', net) if net else ('nowhere', q.url, me))
        if 'public' in self.down:
            raise RX.ConnectionError('down')
        return self.pub.handler(q)

    def fill(self, scripts):
        k = 0
        for n, w in list(self.node.items()) + [('main', self.pub), ('test', self.pub)]:
            net = net_of(n) if n in NODES else n
            for s in scripts[net]:
                k += 1
                w.add(net, s, fakenet.txid_for(n, s, 0), k % 3, 50000 + k, fakenet.TIP - 2)
                w.add(net, s, fakenet.txid_for(n, s, 1), k % 3, 40000 + k, None)
            w.tx[net][TX] = '%08x' % (0xAB00 + k)


TX = fakenet.txid_for('some transaction')


def units(tier):
    us = []
    names = sorted(NODES)
    for first in names:
        for second in names:
            us.append({'t': 'hist', 'pre': [first, second], 'depth': 3 if tier == 'quick' else 4})
    us.append({'t': 'hist', 'pre': [], 'depth': 1})
    for conn in ([], ['mA'], ['tA'], ['mA', 'tA'], ['mB'], ['tB'], ['tC', 'mC']):
        us.append({'t': 'wallets', 'conn': conn})
    us += [{'t': 'creds', 'lo': lo, 'hi': min(lo + 24, 127)} for lo in range(32, 127, 24)]
    us.append({'t': 'forms'})
    us += [{'t': 'alike', 'i': i} for i in range(len(ALIKE))]
    return us


# Node descriptions that differ in one thing only.
ALIKE = [dict(user='u', password='p', host='h.example', port=8332, use_https=False, testnet=False, path='')]
ALIKE += [dict(ALIKE[0], **d) for d in (dict(user='v'), dict(password='q'), dict(host='g.example'), dict(port=8333), dict(use_https=True), dict(use_https='/etc/ssl/own.pem'),
                                        dict(use_https='/etc/ssl/other.pem'), dict(testnet=True), dict(path='wallet/a'), dict(path='wallet/b'), dict(user='U'), dict(password='P'),
                                        dict(password='p '), dict(port=18332), dict(port=833), dict(path='wallet/a/'))]


def alike(seq):
    """Connect one after the other; calls and the node objects go where they should."""
    cur, made = {}, []
    got = []

    def h(q):
        got.append(seen_as(q))
        m = json.loads(q.body)['method']
        return 200, '{"result":%s,"error":null}' % ('[]' if m.startswith('list') else '"ab"' if m != 'getreceivedbyaddress' else '0')

    def expect(fn, d, what):
        got.clear()
        env.NET.reset(h)
        fn()
        if got != [where(d)]:
            raise Violation('%s went to %r, the node is %r' % (what, got, where(d)), connections=seq)

    for d in seq:
        made.append((NetworkAPI.connect_to_node(**d), d))
        cur['test' if d['testnet'] else 'main'] = d
        for net, c in cur.items():
            for q in QUERIES + ('push',):
                expect(lambda: call(q, net, TX if q == 'tx' else ADDR[net] if q != 'push' else PUSH), c, '%s %s query' % (net, q))
        for node, c in made:
            expect(lambda: node.getblockcount(), c, 'a call on a node object')


def connect(n):
    return NetworkAPI.connect_to_node(**NODES[n])


def survey(ctx, N, cur, addr, script, tag):
    """All calls for both networks, under three weather conditions."""
    for net in NETS:
        node = cur.get(net)
        for weather in ('up', 'nodes down', 'public down'):
            N.down = {'nodes down': set(NODES), 'public down': {'public'}}.get(weather, set())
            for q in QUERIES + ('push',):
                arg = {'tx': TX, 'push': PUSH}.get(q, addr[net])
                N.dest.clear()
                for w in N.node.values():
                    w.offered.clear()
                N.pub.offered.clear()
                env.NET.reset(N.handler)
                ctx.step()
                try:
                    res = ('ok', call(q, net, arg))
                except ConnectionError:
                    res = ('down', None)
                want = {('node', node)} if node else {('public', net)}
                ctx.check(set(N.dest) == want, '%s %s query went to %s, should go to %s' % (net, q, sorted(set(map(str, N.dest))), sorted(map(str, want))), history=tag)
                src = N.node[node] if node else N.pub
                dead = (node and weather == 'nodes down') or (not node and weather == 'public down')
                if dead:
                    ctx.eq(res[0], 'down', '%s %s query while its only service is down' % (net, q), history=tag)
                    continue
                ctx.eq(res[0], 'ok', '%s %s query while its service is up (%s)' % (net, q, weather), history=tag)
                if q == 'push':
                    ctx.eq([(n, t) for _, n, t in src.offered], [(net, PUSH)], 'transaction offered', history=tag)
                else:
                    ctx.eq(norm(q, res[1]), truth(src, q, net, arg, script[net]), '%s %s answer' % (net, q), history=tag)
    N.down = set()


ADDR = {}
PUSH = ref.mktx([(fakenet.txid_for(1), 0, b'\x51', 0, [])], [(7, b'\x52')]).full().hex()


def history(ops):
    from ..explorer import Ctx

    ctx = Ctx(None, 'quick', 1)
    N = Net()
    ws = {net: lib.key_wallet(net) for net in NETS}
    N.fill({net: [ws[net].script, ws[net].seg_script] for net in NETS})
    addr = {net: ws[net].addr for net in NETS}
    script = {net: ws[net].script for net in NETS}
    cur = {}
    made = []
    survey(ctx, N, cur, addr, script, ())
    for k, n in enumerate(ops):
        N.dest.clear()
        env.NET.reset(N.handler)
        made.append((n, connect(n)))
        cur[net_of(n)] = n
        if k == len(ops) - 1 or k == 0:
            survey(ctx, N, cur, addr, script, ops[:k + 1])
        ctx.execs += 1
    # every node object keeps talking to its own node
    for n, obj in made:
        N.dest.clear()
        env.NET.reset(N.handler)
        obj.getrawtransaction(TX, False)
        ctx.eq(N.dest, [('node', n)], 'where a call on the returned node object goes', history=ops)
    return ctx.calls


def run_unit(ctx, u):
    env.reset()
    for net in NETS:  # warm the reference's point cache before forking
        ADDR[net] = lib.key_wallet(net).addr
    T = u['t']
    if T == 'hist':
        pre = u['pre']
        for L in range(0, u['depth'] - len(pre) + 1):
            for rest in itertools.product(sorted(NODES), repeat=L):
                ops = tuple(pre) + rest
                ctx.case(('history', ops))
                ctx.step(isolated(history, ops))
                ctx.outcome('history of %d' % len(ops))
    elif T == 'wallets':
        wallets(ctx, u)
    elif T == 'creds':
        for c in map(chr, range(u['lo'], u['hi'])):
            for user, pw in ((c, 'p'), ('u' + c, 'p'), ('u', c), ('u', 'p' + c + 'q'), ('u' + c + 'v', c * 3), (c + '%41', '%' + c + '41'), ('u', c + '@' + c + ':')):
                if ':' in user or not user:
                    continue
                d = dict(user=user, password=pw, host='cred.example', port=8332, testnet=c < 'P')
                ctx.case(('credentials', user, pw))
                isolated(cred, d)
                ctx.outcome('credentials')
    elif T == 'alike':
        for j in range(len(ALIKE)):
            for k in (None,) if ctx.tier == 'quick' and j % 3 else (None,) + tuple(range(0, len(ALIKE), 3 if ctx.tier == 'quick' else 1)):
                seq = [ALIKE[u['i']], ALIKE[j]] + ([ALIKE[k]] if k is not None else [])
                ctx.case(('alike', u['i'], j, k), calls=5 * len(seq))
                isolated(alike, seq)
                ctx.outcome('alike')
    elif T == 'forms':
        for host in ('localhost', '10.0.0.1', '[::1]', 'n-1.example.org'):
            for port in (80, 443, 1, 8332, '8332', 65535):
                for https in (False, True, '/etc/ssl/own.pem'):
                    for path in ('', 'wallet/', 'wallet/w1', 'a/b/c'):
                        for tn in (False, True):
                            d = dict(user='u', password='p', host=host, port=port, use_https=https, path=path, testnet=tn)
                            ctx.case(('form', host, port, https, path, tn))
                            isolated(cred, d)
        d = dict(user='u', password='p')
        isolated(cred, d)
        isolated(cred, dict(d, testnet=True))
        ctx.outcome('forms')


def cred(d):
    """One node: where does a call go, and with which credentials?"""
    got = []
    node = NetworkAPI.connect_to_node(**d)

    def h(q):
        got.append(seen_as(q))
        m = json.loads(q.body)['method']
        return 200, '{"result":%s,"error":null}' % ('[]' if m.startswith('list') else '"ab"' if m != 'getreceivedbyaddress' else '0')

    net = 'test' if d.get('testnet') else 'main'
    for q in QUERIES + ('push',):
        got.clear()
        env.NET.reset(h)
        call(q, net, TX if q == 'tx' else ADDR[net] if q != 'push' else PUSH)
        if got != [where(d)]:
            raise Violation('%s query went to %r, the connected node is %r' % (q, got, where(d)))
    got.clear()
    node.getblockcount()
    if got != [where(d)]:
        raise Violation('call went to %r, the node is %r' % (got, where(d)))


def all_wallets():
    out = []
    for net in NETS:
        out.append(('key', net, lib.key_wallet(net)))
        out.append(('key-u', net, lib.key_wallet(net, False)))
        out.append(('ms', net, lib.multi_wallets(net, 1, lib.SECRETS[:2])[0]))
    return out


def wallets(ctx, u):
    """Every operation of every wallet class talks to its own network only."""
    N = Net()
    ws = all_wallets()
    N.fill({net: [s for _, n, w in ws if n == net for s in (w.script, w.seg_script) if s] for net in NETS})
    cur = {}
    for n in u['conn']:
        connect(n)
        cur[net_of(n)] = n
    money = fakenet.Money(fast=7)
    for order in (ws, ws[::-1]):
        for name, net, w in order:
            d = lib.dests(net)
            out = [(d[0], 1000, 'satoshi')]
            node = cur.get(net)
            src = N.node[node] if node else N.pub
            coins = [(c.txid, c.n) for s in (w.script, w.seg_script) if s for c in src.net[net][s].coins]
            legacy = [(c.txid, c.n) for c in src.net[net][w.script].coins]
            raw = ref.mktx([(t, n, b'', 0xFFFFFFFF, []) for t, n in coins], [(5000, lib.spk(d[1]))]).full().hex()
            ops = {'get_unspents': lambda: w.obj.get_unspents(), 'get_transactions': lambda: w.obj.get_transactions(), 'get_balance': lambda: w.obj.get_balance('satoshi'),
                   'create': lambda: w.obj.create_transaction(out, fee=2), 'create with recommended fee': lambda: w.obj.create_transaction(out),
                   'prepare': lambda: type(w.obj).prepare_transaction(w.addr, out, fee=2), 'sign': lambda: w.obj.sign_transaction(raw)}
            if hasattr(w.obj, 'send'):
                ops['send'] = lambda: w.obj.send(out, fee=2)
            for op, fn in ops.items():
                for weather in ('up', 'own down'):
                    ctx.case((u['conn'], name, net, op, weather))
                    N.down = set() if weather == 'up' else {node or 'public'}
                    N.dest.clear()
                    src.offered.clear()
                    env.reset(handler=lambda q: money.handler(q) if money.route(q) else N.handler(q))
                    try:
                        res = ('ok', fn())
                    except ConnectionError:
                        res = ('down', None)
                    want = {('node', node)} if node else {('public', net)}
                    ctx.check(set(N.dest) == want, '%s of a %s wallet contacted %s, not only %s' % (op, net, sorted(set(map(str, N.dest))), want))
                    ctx.eq(res[0], 'ok' if weather == 'up' else 'down', '%s, %s' % (op, weather))
                    ctx.outcome('%s %s' % (op, weather))
                    if weather != 'up':
                        continue
                    if op == 'get_unspents':
                        ctx.eq(sorted((c.txid, c.txindex) for c in res[1]), sorted(coins), 'coins')
                    elif op == 'send':
                        ctx.eq([(n, ref.parse(t).txid) for _, n, t in src.offered], [(net, res[1])], 'broadcast')
                    elif op in ('create', 'sign'):
                        t = ref.parse(res[1])
                        ctx.eq(sorted((i.txid[::-1].hex(), i.index) for i in t.ins), sorted(coins), 'spent coins')
                    elif op == 'prepare':
                        ctx.eq(sorted((c['txid'], c['txindex']) for c in json.loads(res[1])['unspents']), sorted(legacy), 'prepared coins')
    ctx.check(not N.pub.unknown, 'requests to unknown places', urls=N.pub.unknown[:5])
