"""C27: everything a node can answer, to every call."""
import itertools
import json

from .. import env, fakenet, lib, netlib, refbtc as ref
from ..explorer import Violation, isolated
from ..netlib import NETS, QUERIES, RX, call
from bit.network import NetworkAPI
from bit.exceptions import BitcoinNodeException

LEVEL = 'fault_enumeration'
RULE = 'an execution counts when the node was called; distinct by (call, arguments, answer of the node)'
BOUNDS = ('methods x argument lists: all lists of length <=2 over 21 JSON values, nested method names; answers: every combination of 12 error members x 9 result members x {absent, present} x status '
          '{200, 500}, 30 other statuses with 5 bodies, status 500 with 5 bodies that are not JSON, 6 connection failures; the same answers under all ten queries and send/refresh of every wallet class, both networks; sequences of 3 answers')
ASSUMPTIONS = ['bodies sent with status 200 are JSON, as the protocol says; the node keeps the connection time limits of the operating system']
TECHNIQUE = 'exhaustive enumeration of node answers against the real code'

VALUES = [0, 1, -1, 2**53, 1.5, '', 'a', 'ä"\\\n', True, False, None, [], [1, 'x', None], {}, {'a': [1, {'b': None}]}, 0.00000001, 10**14, 'deadbeef', 9999999, ['addr'], 'null']
ERRORS = [{'code': -5, 'message': 'No such transaction'}, {'code': -32601, 'message': 'Method not found'}, {'code': 0, 'message': ''}, {}, 'text', '', 0, False, [], {'message': 'x'}, -1, {'code': -28, 'message': 'Loading'}]
RESULTS = [None, 0, 1.5, '', 'abc', [], [{'txids': ['a']}], {}, True]
STATUSES = [201, 202, 204, 301, 302, 303, 304, 307, 308, 400, 401, 402, 403, 404, 405, 408, 409, 410, 411, 413, 415, 418, 429, 499, 501, 502, 503, 504, 520, 599]
BODIES = ['', '<html>', '{"result":5,"error":null}', '{"result":[],"error":null,"id":1}', 'null']
TEXTS = ['', 'Work queue depth exceeded', '<html>Internal Server Error</html>', '{"result":', 'deadbeef ']
LOSSES = [lambda: RX.ConnectionError('refused'), lambda: RX.ConnectTimeout('t'), lambda: RX.SSLError('x'), lambda: RX.ProxyError('x'),
          lambda: RX.ConnectionError('reset by peer'), lambda: RX.ConnectionError()]


def units(tier):
    us = [{'t': 'args', 'k': k} for k in range(7)]
    us += [{'t': 'answers'}, {'t': 'status'}, {'t': 'names'}]
    us += [{'t': 'query', 'net': net, 'q': q} for net in NETS for q in QUERIES + ('push',)]
    us += [{'t': 'wallet', 'net': net, 'ms': ms} for net in NETS for ms in (False, True)]
    us += [{'t': 'seq', 'net': net, 'both': b} for net in NETS for b in (False, True)]
    return us


class Node:
    def __init__(self):
        self.answer = None
        self.got = []

    def handler(self, q):
        self.got.append(q)
        a = self.answer(q) if callable(self.answer) else self.answer
        if isinstance(a, BaseException):
            raise a
        return a


def connect(net='main'):
    return NetworkAPI.connect_to_node('u', 'p', host='n.example', port=1234, testnet=net == 'test')


def expect(ctx, N, fn, answer, kind, want=None):
    """kind: 'data' (want is the result), 'node' (node error), 'lost'."""
    N.answer = answer
    N.got.clear()
    env.NET.reset(N.handler)
    try:
        res = ('data', fn())
    except BitcoinNodeException as e:
        res = ('node', e)
    except ConnectionError as e:
        res = ('lost', e)
    except Exception as e:
        raise Violation('the call raised %s: %s' % (type(e).__name__, e))
    ctx.step()
    ctx.check(res[0] == kind, 'the node %s, but the call gave %r' % ({'data': 'answered', 'node': 'reported an error', 'lost': 'was not reachable'}[kind], res))
    if kind == 'data':
        ctx.check(same(res[1], want), 'result is %r, the node said %r' % (res[1], want))
    ctx.outcome(kind)
    return res[1]


def same(a, b):
    return a == b and type(a) is type(b) and json.dumps(a) == json.dumps(b)


def body(result=..., error=..., **more):
    d = dict(more)
    if result is not ...:
        d['result'] = result
    if error is not ...:
        d['error'] = error
    return json.dumps(d)


def run_unit(ctx, u):
    env.reset()
    isolate = {'args': args, 'answers': answers, 'status': status, 'names': names, 'query': query, 'wallet': wallet, 'seq': seq}[u['t']]
    isolate(ctx, u)


def sent(ctx, N, method, params):
    ctx.eq(len(N.got), 1, 'requests for one call')
    q = N.got[0]
    ctx.eq(q.method, 'POST', 'HTTP method')
    c = json.loads(q.body)
    ctx.eq(c['method'], method, 'method called')
    ctx.check(same(c['params'], params), 'arguments are %r, not %r' % (c['params'], params))


def args(ctx, u):
    N, node = Node(), connect()
    for k in range(u['k'], len(VALUES), 7):
        v = VALUES[k]
        for rest in [()] + [(x,) for x in VALUES] + [(x, v) for x in VALUES[::5]]:
            a = (v,) + rest
            ctx.case(('args', repr(a)))
            expect(ctx, N, lambda: node.somemethod(*a), (200, body(list(a), None, id=None)), 'data', list(a))
            sent(ctx, N, 'somemethod', list(a))
    for v in VALUES:
        ctx.case(('result', repr(v)))
        for st in (200, 500):
            expect(ctx, N, lambda: node.getinfo(), (st, body(v, None)), 'data', v)
            sent(ctx, N, 'getinfo', [])


def answers(ctx, u):
    N, node = Node(), connect()
    for st in (200, 500):
        for e in ERRORS:
            for r in RESULTS + [...]:
                for extra in ({}, {'id': None, 'jsonrpc': '2.0'}):
                    ctx.case(('error', st, repr(e), repr(r), bool(extra)))
                    ex = expect(ctx, N, lambda: node.getblock('x', 1), (st, body(r, e, **extra)), 'node')
        for r in RESULTS:
            for e in (None, ...):
                ctx.case(('result', st, repr(r), repr(e)))
                expect(ctx, N, lambda: node.getblock('x', 1), (st, body(r, e)), 'data', r)
                sent(ctx, N, 'getblock', ['x', 1])


def status(ctx, u):
    N, node = Node(), connect()
    for st in STATUSES:
        for b in BODIES + [body(None, {'code': -1, 'message': 'm'}), body('deadbeef', None)]:
            ctx.case(('status', st, b))
            expect(ctx, N, lambda: node.getrawtransaction('x', False), (st, b), 'node')
    for b in TEXTS:
        ctx.case(('status', 500, b))
        expect(ctx, N, lambda: node.getrawtransaction('x', False), (500, b), 'node')
    for k, f in enumerate(LOSSES):
        ctx.case(('loss', k))
        expect(ctx, N, lambda: node.getrawtransaction('x', False), lambda q: f(), 'lost')


def names(ctx, u):
    N, node = Node(), connect()
    for name in ('getblockcount', 'listunspent', 'stop', 'help', 'x', 'send', 'getbalance', 'getnewaddress', 'walletpassphrase', 'importaddress', 'rescanblockchain', 'estimatesmartfee', 'a1_b2', 'UPPER',
                 'sendrawtransaction', 'getreceivedbyaddress', 'listreceivedbyaddress', 'getrawtransaction', 'testmempoolaccept', 'signrawtransactionwithwallet', 'sendtoaddress', 'batch', 'ping'):
        for sub in ((), ('sub',), ('sub', 'deep')):
            m = node
            for part in (name,) + sub:
                m = getattr(m, part)
            full = '.'.join((name,) + sub)
            for a in ((), (1,), ('a', [2], {'k': None})):
                ctx.case(('name', full, a))
                expect(ctx, N, lambda: m(*a), (200, body(7, None)), 'data', 7)
                sent(ctx, N, full, list(a))
                for st in (200, 500):
                    for e in ERRORS:
                        expect(ctx, N, lambda: m(*a), (st, body(None, e)), 'node')
                for st in (401, 403, 404, 503):
                    expect(ctx, N, lambda: m(*a), (st, ''), 'node')
                for f in LOSSES:
                    expect(ctx, N, lambda: m(*a), lambda _: f(), 'lost')
                    ctx.eq(len(N.got), 1, 'requests for one call')
    # a bound method can be kept and reused, and two of them do not mix
    m1, m2 = node.first, node.second
    for m, n in ((m1, 'first'), (m2, 'second'), (m1, 'first')):
        expect(ctx, N, lambda: m(n), (200, body(n, None)), 'data', n)
        sent(ctx, N, n, [n])
    n2 = NetworkAPI.connect_to_node('u2', 'p2', host='m.example', port=1, testnet=True)
    for obj, host in ((node, 'n.example:1234'), (n2, 'm.example:1'), (node, 'n.example:1234')):
        ctx.case(('two nodes', host))
        expect(ctx, N, lambda: obj.getblockcount(), (200, body(3, None)), 'data', 3)
        ctx.eq(N.got[0].host.rpartition('@')[2], host, 'node called')


METHOD = {'balance': ('getreceivedbyaddress', lambda a: [a, 0]), 'history': ('listreceivedbyaddress', lambda a: [0, True, True, a]), 'tx': ('getrawtransaction', lambda a: [a, False]),
          'unspent': ('listunspent', lambda a: [0, 9999999, [a]]), 'push': ('sendrawtransaction', lambda a: [a])}


def query(ctx, u):
    net, q = u['net'], u['q']
    N = Node()
    connect(net)
    w = lib.key_wallet(net)
    arg = {'tx': fakenet.txid_for('x'), 'push': 'ab' * 60}.get(q, w.addr)
    fn = lambda: call(q, net, arg)
    bad = 'lost' if q == 'push' else 'node'  # a rejected broadcast is "not sent"
    for st in (200, 500):
        for e in ERRORS:
            for r in RESULTS + [...]:
                ctx.case((net, q, 'error', st, repr(e), repr(r)))
                expect(ctx, N, fn, (st, body(r, e)), bad)
                c = json.loads(N.got[0].body)
                ctx.eq(c['method'], METHOD[q][0], 'method')
    for st in STATUSES:
        for b in BODIES:
            ctx.case((net, q, 'status', st, b))
            expect(ctx, N, fn, (st, b), bad)
    for b in TEXTS:
        ctx.case((net, q, 'status', 500, b))
        expect(ctx, N, fn, (500, b), bad)
    for k, f in enumerate(LOSSES):
        ctx.case((net, q, 'loss', k))
        expect(ctx, N, fn, lambda _: f(), 'lost')
    ctx.eq(len(N.got), 1, 'requests for one query')


def wallet(ctx, u):
    net = u['net']
    N = Node()
    connect(net)
    w = lib.multi_wallets(net, 1, lib.SECRETS[:2])[0] if u['ms'] else lib.key_wallet(net)
    d = lib.dests(net)
    good = {'txid': fakenet.txid_for('c'), 'vout': 1, 'address': w.addr, 'scriptPubKey': w.script.hex(), 'amount': 0.0005, 'confirmations': 3}
    fails = [((500, body(None, ERRORS[0])), 'node'), ((200, body(None, ERRORS[0])), 'node'), ((401, ''), 'node'), ((503, 'x'), 'node'), (LOSSES[0], 'lost'), (LOSSES[1], 'lost'),
             ((404, body([], None)), 'node'), ((500, body([], ERRORS[2])), 'node')]
    ops = {'unspents': lambda: w.obj.get_unspents(), 'transactions': lambda: w.obj.get_transactions(), 'balance': lambda: w.obj.get_balance(),
           'create': lambda: w.obj.create_transaction([(d[0], 1000, 'satoshi')], fee=1), 'prepare': lambda: type(w.obj).prepare_transaction(w.addr, [(d[0], 1000, 'satoshi')], fee=1)}
    for name, fn in ops.items():
        for at in (0, 1):  # which request fails
            if at == 1 and name == 'prepare':
                continue
            for a, kind in fails:
                ctx.case((net, u['ms'], name, at, repr(a)[:40]))
                before = (list(w.obj.unspents), w.obj.balance, list(w.obj.transactions))
                n = [0]

                def ans(q):
                    n[0] += 1
                    if n[0] - 1 == at:
                        return a() if callable(a) else a
                    m = json.loads(q.body)['method']
                    return 200, body([good] if m == 'listunspent' else [{'txids': ['t1']}], None)

                expect(ctx, N, fn, ans, kind)
                ctx.eq((list(w.obj.unspents), w.obj.balance, list(w.obj.transactions)), before, 'wallet after the failure')
    if hasattr(w.obj, 'send'):
        c = w.coin('L', 50000, 0)
        for a, kind in fails:
            ctx.case((net, 'send', repr(a)[:40]))
            expect(ctx, N, lambda: w.obj.send([(d[0], 1000, 'satoshi')], fee=1, unspents=[c]), (lambda q: a()) if callable(a) else a, 'lost')
        ctx.case((net, 'send ok'))
        N.answer = (200, body('whatever id the node says', None))
        N.got.clear()
        env.NET.reset(N.handler)
        got = w.obj.send([(d[0], 1000, 'satoshi')], fee=1, unspents=[c])
        ctx.eq(got, ref.parse(json.loads(N.got[0].body)['params'][0]).txid, 'id of the sent transaction')


def seq(ctx, u):
    """An error leaves nothing behind: all sequences of three answers."""
    net = u['net']
    N = Node()
    node = connect(net)
    if u['both']:
        connect('test' if net == 'main' else 'main')
    al = [((200, body('aa', None)), 'data', 'aa'), ((200, body('bb')), 'data', 'bb'), ((500, body(None, ERRORS[0])), 'node', None), ((200, body('cc', ERRORS[1])), 'node', None),
          ((503, ''), 'node', None), ((lambda _: LOSSES[0]()), 'lost', None), ((200, body(None, None)), 'data', None)]
    for s in itertools.product(range(len(al)), repeat=3):
        for via in (0, 1):
            ctx.case((net, u['both'], s, via))
            for k in s:
                expect(ctx, N, (lambda: node.getrawtransaction('x', False)) if via == 0 else (lambda: call('tx', net, 'x')), al[k][0], al[k][1], al[k][2])
                ctx.eq(len(N.got), 1, 'requests for one call')
