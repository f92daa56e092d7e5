"""C15: prepare on one machine, sign on another, compared with direct creation
under the same coins, options and random outcomes."""
import itertools
import json
from decimal import Decimal

from .. import env, fakenet, lib, refbtc as ref
from ..build import KEYS, wallet_set
from ..explorer import Violation, explore
from bit.network import NetworkAPI

LEVEL = 'model_checking'
BOUNDS = ('every wallet kind (4 plain keys, 5 contracts) x coin mixes of 1..3 legacy/segwit coins x payments 0..3 x {fee per byte, absolute, recommended} x change address x combine (random '
          'outcomes with <=3 non-default, thorough 5) x message (none, text, bytes) x replace-by-fee x sequences; data re-serialised in transit; second co-signers; coins fetched from the '
          'network; every pair (prepared for one wallet, signed by another)')
ASSUMPTIONS = ['the sending address given to prepare is the one direct creation returns change to (or leftover is explicit)']
WALLETS = KEYS + [('ms', 'main', 1, 1, -1, False), ('ms', 'main', 2, 2, -1, True), ('ms', 'test', 2, 3, -1, False), ('ms', 'main', 1, 2, 0, False), ('ms', 'test', 1, 2, 1, True)]
FEES = [dict(fee=3), dict(fee=1234, absolute_fee=True), dict()]
MSG = [{}, dict(message='hello wörld ' * 8), dict(message=bytes(range(200, 256)) * 2, message_is_hex=True)]


def units(tier):
    us = []
    for w in WALLETS:
        for nout in (0, 1, 2, 3):
            us.append({'t': 'opts', 'w': w, 'nout': nout, 'dev': 3 if tier == 'quick' else 5})
        us.append({'t': 'net', 'w': w})
        us.append({'t': 'foreign', 'w': w})
        us.append({'t': 'edge', 'w': w})
    us.append({'t': 'share'})
    return us


def money():
    return fakenet.Money(price={'bitpay': {'usd': 20000, 'jpy': 3000000}}, fast=11, hour=4)


def own_addr(w, coins):
    return w.seg_addr if any(bytes.fromhex(c.script) == w.seg_script for c in coins) else w.addr


def attempt(fn):
    try:
        return ('ok', fn())
    except (ValueError, TypeError, KeyError, ConnectionError, lib.InsufficientFunds) as e:
        return ('refused', type(e).__name__)


def transport(data, how):
    if how == 1:
        return json.dumps(json.loads(data), indent=2, sort_keys=True)
    if how == 2:
        return json.dumps(json.loads(data), ensure_ascii=False) + '\n'
    return data


def both(ctx, ch, ws, coins, outs, kw, desc, address=None, signer=0):
    """One execution: direct creation, then prepare / transport / sign."""
    w = ws[signer]
    ctx.case(desc, calls=3)
    cls = type(w.obj)
    m = money()
    env.NET.reset(fakenet.combined(m))
    direct = attempt(lambda: w.obj.create_transaction(list(outs), unspents=list(coins), **kw))
    draws = list(ch.choices)
    env.STATE.chooser = env.Chooser(draws, [a for _, a in ch.trace], strict=True)
    address = address or own_addr(w, coins)
    try:
        prep = attempt(lambda: cls.prepare_transaction(address, list(outs), unspents=list(coins), **kw))
    except env.Divergence as e:
        raise Violation('preparing draws other random numbers than creating: %s' % e)
    finally:
        env.STATE.chooser = ch
    if direct[0] != 'ok' or prep[0] != 'ok':
        ctx.eq(prep[0], direct[0], 'preparing succeeds exactly when creating does', direct=direct, prepared=prep)
        ctx.eq(prep[1], direct[1], 'error')
        ctx.outcome(direct[1])
        return None
    # the other machine has no network at all
    env.NET.reset(None)
    for how in (0, 1, 2):
        got = attempt(lambda: w.obj.sign_transaction(transport(prep[1], how)))
        ctx.eq(got, direct, 'transaction signed offline (transport %d) and created directly' % how, prepared=prep[1])
    ctx.eq(len(env.NET.log), 0, 'requests made while signing offline')
    ctx.outcome('equal')
    return prep[1]


def pool(w):
    mixes = [('L',), ('S',), ('L', 'L'), ('L', 'S'), ('S', 'L'), ('S', 'S', 'L')] if w.seg_script else [('L',), ('L', 'L'), ('L', 'L', 'L')]
    return [[w.coin(k, 30000 + 7000 * i, i, index=2 * i) for i, k in enumerate(mx)] for mx in mixes]


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'share':
        return share(ctx)
    ws = wallet_set(tuple(u['w']))
    w = ws[0]
    d = lib.dests(w.net)
    if T == 'opts':
        outs = [(d[(u['nout'] + 2 * i) % len(d)], 600 + 333 * i, 'satoshi') for i in range(u['nout'])]
        for ci, coins in enumerate(pool(w)):
            for fee in FEES:
                for lo in ({}, dict(leftover=d[1])):
                    for msg in MSG:
                        for rbf in ({}, dict(replace_by_fee=True)):
                            kw = dict(fee, **lo, **msg, **rbf)
                            both(ctx, env.STATE.chooser, ws, coins, outs, kw, (u['w'], u['nout'], ci, sorted(kw), repr(fee), repr(msg)[:20]))
                            env.STATE.chooser = env.Chooser()
                            if rbf or (lo and msg):
                                continue
                            k2 = dict(kw, combine=False)
                            explore(lambda ch: both(ctx, ch, ws, coins, outs, k2, (u['w'], u['nout'], ci, repr(sorted(k2.items()))[:150], 'random', tuple(ch.prefix))),
                                    max_dev=u['dev'], limit=60 if ctx.tier == 'quick' else 3000, ctx=None)
                            env.STATE.chooser = env.Chooser()
        if len(ws) > 1:  # another co-signer signs the prepared data first
            for s in range(1, len(ws)):
                for coins in pool(w):
                    both(ctx, env.STATE.chooser, ws, coins, outs, dict(fee=2), (u['w'], u['nout'], 'signer', s, len(coins)), signer=s)
                    env.STATE.chooser = env.Chooser()
    elif T == 'edge':
        run_edge(ctx, u, ws, w, d)
    elif T == 'net':
        run_net(ctx, u, ws, w, d)
    elif T == 'foreign':
        run_foreign(ctx, u, ws, w, d)


def run_edge(ctx, u, ws, w, d):
    nf = lambda: env.STATE.__setattr__('chooser', env.Chooser())
    # amounts in every form and unit, text survives JSON
    forms = [(0.00012345, 'btc'), ('0.00012345', 'btc'), (Decimal('0.00012345'), 'btc'), (12345, 'satoshi'), ('12345', 'satoshi'), (0.5, 'mbtc'), ('77.5', 'ubtc'), (3, 'usd'), ('2.5', 'usd'),
             (100, 'jpy')]
    for i, (a, c) in enumerate(forms):
        both(ctx, env.STATE.chooser, ws, [w.coin('L', 90000, 0), w.coin(w.kinds[-1], 90000, 1)], [(d[i % len(d)], a, c)], dict(fee=2), (u['w'], 'form', repr(a), c))
        nf()
    # sequences, indexes, ids, confirmations
    for seq in (0, 1, 0xFFFFFFFC, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF):
        for idx in (0, 1, 255, 256, 0xFFFFFFFF):
            for rbf in (False, True):
                for k in w.kinds:
                    cs = [w.coin(k, 50000, 3, index=idx, sequence=seq, conf=0), w.coin(w.kinds[0], 40000, 4, index=idx)]
                    both(ctx, env.STATE.chooser, ws, cs, [(d[0], 700, 'satoshi')], dict(fee=1, replace_by_fee=rbf), (u['w'], 'seq', seq, idx, rbf, k))
                    nf()
    # large amounts and exact spends
    for amt in (1, 546, 547, 10**8, 2**32 - 1, 2**32, 2**53 + 1, 21 * 10**14):
        for kw in (dict(fee=1), dict(fee=300, absolute_fee=True), dict(fee=1, combine=False)):
            cs = [w.coin('L', amt, 0), w.coin(w.kinds[-1], 3000, 1)]
            both(ctx, env.STATE.chooser, ws, cs, [(d[2], 600, 'satoshi')], kw, (u['w'], 'amt', amt, repr(kw)))
            nf()
            if amt > 4000:
                both(ctx, env.STATE.chooser, ws, cs, [(d[3], amt + 3000 - 300, 'satoshi')], kw, (u['w'], 'spend all', amt, repr(kw)))
                nf()
                both(ctx, env.STATE.chooser, ws, cs, [(w.addr, amt - 1500, 'satoshi'), (d[3], 600, 'satoshi')], kw, (u['w'], 'to self', amt, repr(kw)))
                nf()
    # every destination kind, repeated destinations, refused destinations
    for x in d:
        both(ctx, env.STATE.chooser, ws, [w.coin('L', 90000, 0)], [(x, 1000, 'satoshi'), (x, 2000, 'satoshi')], dict(fee=2, leftover=x), (u['w'], 'dest', x))
        nf()
    other = lib.dests('test' if w.net == 'main' else 'main')
    for x in other[:5] + ['', 'nonsense']:
        both(ctx, env.STATE.chooser, ws, [w.coin('L', 90000, 0)], [(x, 1000, 'satoshi')], dict(fee=2), (u['w'], 'refused', x))
        nf()
        if x:
            both(ctx, env.STATE.chooser, ws, [w.coin('L', 90000, 0)], [(d[0], 1000, 'satoshi')], dict(fee=2, leftover=x), (u['w'], 'refused change', x))
            nf()
    for fee in (10**6, 99999999):
        both(ctx, env.STATE.chooser, ws, [w.coin('L', 90000, 0)], [(d[0], 1000, 'satoshi')], dict(fee=fee), (u['w'], 'insufficient', fee))
        nf()
    # message contents and lengths that text transport could mangle
    for body in (b'\x00', b'\x00\x00', b'\x00a', b'\x0a', b'\x01\x00', b'\x00' * 80, b'\x00' * 81, b'a' * 80 + b'\x00', b'b' * 80 + b'\x00c', b'\x05' * 160 + b'\x00\x10', b'deadbeef', b'0', b'00',
                 b'\xff', b'\x80\x00', b'"\\', b'null', b'{}', b'x' * 79, b'x' * 80, b'x' * 81, b'x' * 160, b'x' * 161, bytes(range(256)) * 2):
        for kind in ((dict(message=body, message_is_hex=True),) + ((dict(message=body.decode()),) if max(body) < 128 else ())):
            for cmb in ({}, dict(combine=False)):
                kw = dict(fee=2, **kind, **cmb)
                both(ctx, env.STATE.chooser, ws, [w.coin('L', 90000, 0), w.coin(w.kinds[-1], 90000, 1)], [(d[0], 1000, 'satoshi')], kw, (u['w'], 'message', body, 'hex' if len(kind) > 1 else 'text', len(cmb)))
                nf()
    # many coins and outputs
    cs = [w.coin(w.kinds[i % len(w.kinds)], 5000 + i, i, index=i) for i in range(40)]
    both(ctx, env.STATE.chooser, ws, cs, [(d[i % len(d)], 600 + i, 'satoshi') for i in range(30)], dict(fee=1), (u['w'], 'many'))
    nf()


def run_net(ctx, u, ws, w, d):
    """prepare fetches the coins itself; the other side knows the same chain."""
    get = NetworkAPI.get_unspent if w.net == 'main' else NetworkAPI.get_unspent_testnet
    for addr, script in [(w.addr, w.script)] + ([(w.seg_addr, w.seg_script)] if w.seg_script else []):
        for n in (1, 2, 3):
            W = fakenet.World()
            for i in range(n):
                W.add(w.net, script, fakenet.txid_for('net', i), i, 40000 + 500 * i, fakenet.TIP - i)
            for down in (set(), {'blockstream'}, {'blockstream', 'blockchair'}):
                W.fault = lambda p, net, kind, i: (503, 'down') if p in down else None
                for kw in (dict(fee=5), dict(), dict(fee=900, absolute_fee=True), dict(fee=5, message='m'), dict(fee=5, replace_by_fee=True), dict(fee=5, combine=False)):
                    for lo in (addr, d[0]):
                        ctx.case((u['w'], addr, n, sorted(down), repr(kw), lo), calls=3)
                        h = fakenet.combined(money(), W)
                        env.NET.reset(h)
                        env.STATE.chooser = env.Chooser()
                        direct = attempt(lambda: w.obj.create_transaction([(d[3], 1000, 'satoshi')], unspents=get(addr), leftover=lo, **kw))
                        env.STATE.chooser = env.Chooser()
                        data = type(w.obj).prepare_transaction(addr, [(d[3], 1000, 'satoshi')], **dict(kw, **({} if lo == addr else {'leftover': lo})))
                        env.NET.reset(None)
                        got = attempt(lambda: w.obj.sign_transaction(data))
                        ctx.eq(got, direct, 'coins fetched while preparing, signed offline')
                        ctx.eq(len(env.NET.log), 0, 'requests made while signing offline')
                        coins = [lib.Unspent(e.amount, 1, script.hex(), e.txid, e.n) for e in W.net[w.net][script].coins]
                        tx = got[1]
                        for o in ws[1:getattr(w.obj, 'm', 1)]:
                            tx = o.obj.sign_transaction(tx, unspents=coins)
                        try:
                            ref.check_tx(tx, lib.chain(coins))
                        except ref.Invalid as e:
                            ctx.fail('the network would reject the offline-signed transaction: %s' % e, tx=tx)
                        ctx.outcome('network coins')


def anyone(net):
    for spec in WALLETS + [('key', 'main', True, 3), ('key', 'test', False, 4), ('ms', 'main', 2, 3, -1, True)]:
        if spec[1] == net:
            yield spec, wallet_set(tuple(spec))


def looks_signed(t, only=None):
    """Any data item that could be a signature, in any input."""
    for i in t.ins if only is None else [only]:
        try:
            items = ref.pushes(i.script)
        except ref.Invalid:
            items = [i.script]
        for x in list(items) + list(i.witness):
            if x[:1] == b'\x30' and 60 <= len(x) <= 74:
                return x
    return None


def run_foreign(ctx, u, ws, w, d):
    """Data prepared for w, signed by every wallet that owns none of it."""
    mine = {w.script, w.seg_script}
    for coins in pool(w):
        for kw in (dict(fee=3), dict(fee=700, absolute_fee=True, message='x', replace_by_fee=True)):
            data = type(w.obj).prepare_transaction(own_addr(w, coins), [(d[0], 1000, 'satoshi')], unspents=list(coins), **kw)
            for spec, fs in anyone(w.net):
                for f in fs:
                    if f.script in mine or (f.seg_script and f.seg_script in mine):
                        continue
                    for dat in (data, transport(data, 1)):
                        ctx.case((u['w'], len(coins), repr(kw), spec, f.obj.public_key.hex()[:12], len(dat)))
                        env.NET.reset(fakenet.World().handler)
                        got = attempt(lambda: f.obj.sign_transaction(dat))
                        if got[0] == 'refused':
                            ctx.outcome('refused')
                            continue
                        t = ref.parse(got[1], strict=False)
                        x = looks_signed(t)
                        ctx.check(x is None, 'a key that owns none of the coins signed', sig=x and x.hex(), tx=got[1])
                        ctx.outcome('not signed')


def share(ctx):
    """Coins of two owners in one prepared transaction: each signs only its own."""
    for net in ('main', 'test'):
        a, b = lib.key_wallet(net, True, lib.SECRETS[3]), lib.key_wallet(net, True, lib.SECRETS[4])
        c = lib.multi_wallets(net, 1, [lib.SECRETS[3], lib.SECRETS[9]])[0]
        owners = [a, b, c]
        d = lib.dests(net)
        for n in (2, 3):
            for who in itertools.product(range(3), repeat=n):
                for kinds in itertools.product('LS', repeat=n):
                    coins = [owners[o].coin(k, 30000 + i, 10 * o + i, index=i) for i, (o, k) in enumerate(zip(who, kinds))]
                    data = type(a.obj).prepare_transaction(a.addr, [(d[0], 5000, 'satoshi')], unspents=list(coins), fee=400, absolute_fee=True)
                    for o in range(3):
                        ctx.case((net, who, kinds, o))
                        env.NET.reset(fakenet.World().handler)
                        tx = owners[o].obj.sign_transaction(data)
                        direct = owners[o].obj.create_transaction([(d[0], 5000, 'satoshi')], unspents=list(coins), fee=400, absolute_fee=True, leftover=a.addr)
                        ctx.eq(tx, direct, 'prepared and signed, created')
                        t = ref.parse(tx, strict=False)
                        by = {(x.txid, x.txindex): (ow, x) for ow, x in zip(who, coins)}
                        for k, i in enumerate(t.ins):
                            ow, x = by[i.txid[::-1].hex(), i.index]
                            if ow != o:
                                ctx.check(looks_signed(t, i) is None, 'input %d of another owner was signed' % k, tx=tx)
                        ctx.outcome('shared')
