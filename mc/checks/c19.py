"""C19: broadcasting under every combination of acceptance, rejection and failure."""
import itertools
import json

from .. import env, fakenet, lib, netlib, refbtc as ref
from ..build import KEYS, wallet_set
from ..explorer import Violation, isolated
from ..netlib import NETS, ORDER, RX, call
from bit.network import NetworkAPI

LEVEL = 'fault_enumeration'
RULE = 'an execution counts when at least one service or node was offered a transaction or failed; distinct by (entry point, network, transaction, answer of every service)'
BOUNDS = ('all 9^5 (mainnet) and 9^4 (testnet) combinations of {accept, reject 400, refused, read timeout, lost answer, answer cut off, 500, 503, 429} for the bare broadcast; all combinations of '
          '{accept, reject, refused} for send() of every plain wallet kind with given and fetched coins, legacy and segwit, messages, RBF; two consecutive sends under every pair; connected nodes: accept, '
          'reject, error statuses, connection loss, with the other network on public services')
TECHNIQUE = 'exhaustive enumeration of all service answers against the real code'
ASSUMPTIONS = ['status 200 means accepted; any other status means not accepted']

ANSWERS = ['accept', 'reject', 'refused', 'timeout', 'lost', '500', '503', '429', 'cut']


def units(tier):
    us = []
    for net in NETS:
        for first in ANSWERS:
            us.append({'t': 'raw', 'net': net, 'first': first, 'k': 9})
    for w in KEYS:
        for mode in ('given', 'fetched'):
            us.append({'t': 'send', 'w': w, 'mode': mode})
    us += [{'t': 'pairs', 'net': net} for net in NETS]
    us += [{'t': 'node', 'net': net} for net in NETS]
    us += [{'t': 'shapes', 'net': net} for net in NETS]
    us += [{'t': 'status', 'net': net} for net in NETS]
    return us


class Market:
    """Services with a scripted answer to the next broadcast."""

    def __init__(self, net, answers):
        self.w = fakenet.World()
        self.net = net
        self.answers = answers
        self.accepted = []
        self.contacted = []
        self.w.accept = lambda prov, n, tx: self.take(prov, n, tx)
        self.w.fault = self.fault
        self.offers = []  # (provider, net, tx) whether or not it was accepted

    def take(self, prov, net, tx):
        self.offers.append((prov, net, tx))
        a = self.answers.get(prov, 'accept')
        if a in ('accept', 'lost', 'cut'):
            self.accepted.append((prov, net, tx))
        if a == 'cut':
            raise RX.ChunkedEncodingError('answer cut off')
        if a == 'lost':
            raise RX.ReadTimeout('answer lost')
        return a == 'accept'

    def fault(self, prov, net, kind, i):
        if kind not in ('push', 'rpc'):
            return None
        self.contacted.append((prov, net))
        a = self.answers.get(prov, 'accept')
        if a == 'status':
            return self.status
        return {'refused': RX.ConnectionError('refused'), 'timeout': RX.ReadTimeout('t'), '500': (500, 'oops'), '503': (503, ''), '429': (429, '')}.get(a)


def judge(ctx, M, net, provs, answers, res, tx):
    """res: ('ok', value) or ('error', exception); tx: exact bytes offered."""
    first = next((i for i, p in enumerate(provs) if answers[p] == 'accept'), None)
    want = [(p, net) for p in (provs if first is None else provs[:first + 1])]
    ctx.eq(M.contacted, want, 'services offered the transaction')
    for p, n, t in M.offers:
        ctx.eq(t, tx, 'bytes offered to %s' % p)
        ctx.eq(n, net, 'network it was offered on')
    if first is None:
        ctx.check(res[0] == 'error', 'reported as sent although no service accepted it')
        ctx.check(isinstance(res[1], ConnectionError), 'failure raised %r, not a connection error' % (res[1],))
        ctx.outcome('failed')
    else:
        ctx.check(res[0] == 'ok', 'reported as failed (%r) although %s accepted it' % (res[1], provs[first]))
        ctx.outcome('accepted by service %d' % first)


def attempt(fn):
    try:
        return ('ok', fn())
    except (Violation, env.Divergence, env.TooManyRequests):
        raise
    except Exception as e:
        return ('error', e)


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'raw':
        net = u['net']
        provs = ORDER['push', net]
        tx = ref.mktx([(fakenet.txid_for(1), 0, b'\x51', 0, [])], [(7, b'\x52')]).full().hex()
        alpha = ANSWERS[:u['k']]
        if u['first'] not in alpha:
            alpha = [u['first']] + alpha[:2]
        for rest in itertools.product(alpha, repeat=len(provs) - 1):
            ans = dict(zip(provs, (u['first'],) + rest))
            ctx.case((net, ans))
            M = Market(net, ans)
            env.NET.reset(M.w.handler)
            res = attempt(lambda: call('push', net, tx))
            judge(ctx, M, net, provs, ans, res, tx)
            ctx.step(len(M.contacted))
    elif T == 'send':
        ws = wallet_set(tuple(u['w']))
        w = ws[0]
        net = w.net
        d = lib.dests(net)
        provs = ORDER['push', net]
        for kinds in (['L'], ['S'], ['L', 'S']) if w.seg_script else (['L'], ['L', 'L']):
            coins = [w.coin(k, 50000 + i, i, index=i) for i, k in enumerate(kinds)]
            for kw in (dict(fee=3), dict(), dict(fee=500, absolute_fee=True, message='note', replace_by_fee=True), dict(fee=2, combine=False, leftover=d[1])):
                for rest in itertools.product(('accept', 'reject', 'refused'), repeat=len(provs)):
                    ans = dict(zip(provs, rest))
                    ctx.case((u['w'], u['mode'], kinds, repr(kw), rest), calls=1)
                    M = Market(net, ans)
                    for c in coins:
                        M.w.add(net, bytes.fromhex(c.script), c.txid, c.txindex, c.amount)
                    env.reset(handler=fakenet.combined(fakenet.Money(fast=9), M.w))
                    args = dict(kw, unspents=list(coins)) if u['mode'] == 'given' else dict(kw)
                    res = attempt(lambda: w.obj.send([(d[0], 1500, 'satoshi')], **args))
                    if not M.offers:
                        ctx.check(all(a == 'refused' for a in rest), 'nothing was offered (%r)' % (res,))
                        judge(ctx, M, net, provs, ans, res, None)
                        continue
                    tx = M.offers[0][2]
                    judge(ctx, M, net, provs, ans, res, tx)
                    try:
                        t = ref.check_tx(tx, lib.chain(coins))
                    except ref.Invalid as e:
                        ctx.fail('the offered transaction would be rejected by the network: %s' % e, tx=tx)
                    if res[0] == 'ok':
                        ctx.eq(res[1], ref.parse(tx).txid, 'returned id')
    elif T == 'pairs':
        # two sends in a row: the second one is not influenced by the first
        net = u['net']
        w = lib.key_wallet(net)
        d = lib.dests(net)
        provs = ORDER['push', net]
        combos = list(itertools.product(('accept', 'reject', 'refused'), repeat=3))
        for a1 in combos[::2]:
            for a2 in combos:
                ctx.case((net, a1, a2), calls=2)
                for n, a in enumerate((a1, a2)):
                    ans = dict(zip(provs, a + ('reject', 'refused')))
                    M = Market(net, ans)
                    env.NET.reset(M.w.handler)
                    res = attempt(lambda: w.obj.send([(d[n], 1500, 'satoshi')], fee=1, unspents=[w.coin('L', 9000 + n, n)]))
                    tx = M.offers[0][2] if M.offers else None
                    judge(ctx, M, net, provs, ans, res, tx)
                    if res[0] == 'ok':
                        ctx.eq(res[1], ref.parse(tx).txid, 'returned id')
    elif T == 'shapes':
        # transactions of every shape reach the service byte for byte
        net = u['net']
        provs = ORDER['push', net]
        w = lib.key_wallet(net)
        d = lib.dests(net)
        txs = []
        for n in (1, 2, 60, 300):
            for wit in ([], [b'x' * 300]):
                t = ref.mktx([(fakenet.txid_for(i), i, b'\x51' * (i % 3), 0, wit) for i in range(n)], [(7 + i, b'\x52' * 25) for i in range(3)])
                t.segwit = bool(wit)
                txs.append(t.full().hex())
        for tx in txs:
            for k, p in enumerate(provs):
                ans = {q: 'reject' for q in provs}
                ans[p] = 'accept'
                ctx.case((net, 'shape', len(tx), tx[:10], p))
                M = Market(net, ans)
                env.NET.reset(M.w.handler)
                res = attempt(lambda: call('push', net, tx))
                judge(ctx, M, net, provs, ans, res, tx)
    elif T == 'status':
        # every error status at every service, alone, before an acceptance and with wordings services use
        net = u['net']
        provs = ORDER['push', net]
        tx = ref.mktx([(fakenet.txid_for(1), 0, b'\x51', 0, [])], [(7, b'\x52')]).full().hex()
        for st in [201, 202, 203, 204, 206, 300, 301, 302, 303, 304, 307, 308] + list(range(400, 452)) + list(range(500, 512)) + [520, 521, 522, 523, 524, 530, 599]:
            for body in ('', '{"success":true}', 'Transaction already in block chain', tx) if st in (202, 302, 400, 403, 404, 409, 422, 500) else ('',):
                for p in provs:
                    for then in ('accept', 'reject', 'refused'):
                        i = provs.index(p)
                        ans = {q: 'reject' if k < i else then for k, q in enumerate(provs)}
                        ans[p] = 'status'
                        ctx.case((net, 'status', st, body[:9], p, then))
                        M = Market(net, ans)
                        M.status = (st, body)
                        env.NET.reset(M.w.handler)
                        res = attempt(lambda: call('push', net, tx))
                        judge(ctx, M, net, provs, ans, res, tx)
    elif T == 'node':
        isolated_node(ctx, u)


NODE_ERRORS = [(c, m, st) for st in (500, 200) for c, m in (
    (-27, 'Transaction already in block chain'), (-27, 'transaction already in block chain'), (-26, 'txn-already-in-mempool'), (-26, 'txn-already-known'), (-26, 'txn-mempool-conflict'),
    (-26, 'insufficient fee, rejecting replacement'), (-26, 'min relay fee not met'), (-26, 'dust'), (-26, '64: scriptpubkey'), (-25, 'Missing inputs'), (-25, 'bad-txns-inputs-missingorspent'),
    (-22, 'TX decode failed'), (-26, 'mandatory-script-verify-flag-failed'), (-28, 'Loading block index...'), (-32601, 'Method not found'), (0, ''), (1, 'ok'))]


def isolated_node(ctx, u):
    net = u['net']
    other = 'test' if net == 'main' else 'main'
    host = 'rpcnode.example:18443'
    NetworkAPI.connect_to_node('user', 'pass', host='rpcnode.example', port=18443, testnet=net == 'test')
    name = 'rpc:' + host
    w, wo = lib.key_wallet(net), lib.key_wallet(other, True, lib.SECRETS[1])
    outs = [(lib.dests(net)[0], 1500, 'satoshi')]
    for a in ['accept', 'reject', 'refused', '503', '429', '401'] + NODE_ERRORS:
        for b in itertools.product(('accept', 'reject', 'refused'), repeat=2):
            for first in (0, 1):
                ctx.case((net, a, b, first), calls=2)
                for side in ((0, 1) if first == 0 else (1, 0)):
                    if side == 0:
                        M = Market(net, {name: a})
                        M.w.nodes[('http', host)] = net
                        if isinstance(a, tuple):
                            body = json.dumps({'result': None, 'error': {'code': a[0], 'message': a[1]}, 'id': None})
                            M.w.fault = lambda p, n, k, i: M.contacted.append((p, n)) or (a[2], body)
                        if a == '401':
                            M.w.fault = lambda p, n, k, i: M.contacted.append((p, n)) or (401, '')
                        env.NET.reset(M.w.handler)
                        res = attempt(lambda: w.obj.send(outs, fee=1, unspents=[w.coin('L', 9000, 0), w.coin('S', 9000, 1)]))
                        ctx.eq(M.contacted, [(name, net)], 'who was offered the transaction')
                        tx = M.offers[0][2] if M.offers else None
                        if a == 'accept':
                            ctx.eq(res, ('ok', ref.parse(tx).txid), 'result of sending through the node')
                        else:
                            ctx.check(res[0] == 'error' and isinstance(res[1], ConnectionError), 'the node did not accept but the result is %r' % (res,))
                        ctx.outcome('node ' + (a if isinstance(a, str) else 'error'))
                    else:
                        provs = ORDER['push', other]
                        ans = dict(zip(provs, b + ('reject',) * 3))
                        M = Market(other, ans)
                        M.w.nodes[('http', host)] = net
                        env.NET.reset(M.w.handler)
                        res = attempt(lambda: wo.obj.send([(lib.dests(other)[1], 1500, 'satoshi')], fee=1, unspents=[wo.coin('L', 9000, 0)]))
                        tx = M.offers[0][2] if M.offers else None
                        judge(ctx, M, other, provs, ans, res, tx)
                        if res[0] == 'ok':
                            ctx.eq(res[1], ref.parse(tx).txid, 'returned id')
