"""C09: destinations of the other network are refused everywhere, destinations
of the own network never."""
import hashlib
import itertools

from .. import env, fakenet, lib, refbtc as ref
from ..build import KEYS, wallet_set
from ..explorer import explore

LEVEL = 'model_checking'
BOUNDS = ('every wallet kind x create, prepare, send x every address kind of both networks (base58 key/script hash, bech32 v0..v16 in lower and upper '
          'case, regtest) in every position of output lists of length 1..4 (with one kind per position, up to 40, and up to 300 in every tenth) and as change address, '
          'for amounts of nothing, dust and more in 4 units x with and without change, message, '
          'consolidation, for every random outcome up to 2 non-default choices')
ASSUMPTIONS = []
WALLETS = KEYS + [('ms', 'main', 2, 3, -1, False), ('ms', 'test', 1, 2, -1, True), ('ms', 'test', 2, 2, 0, False)]


def kinds(net):
    h = hashlib.sha256(b'c09' + net.encode()).digest()
    out = [ref.b58cenc((b'\0' if net == 'main' else b'\x6f') + h[:20]), ref.b58cenc((b'\x05' if net == 'main' else b'\xc4') + h[1:21]),
           ref.b58cenc((b'\0' if net == 'main' else b'\x6f') + b'\0' * 19 + net[:1].encode()), ref.b58cenc((b'\x05' if net == 'main' else b'\xc4') + b'\xff' * 19 + net[:1].encode())]
    for hrp in ('bc',) if net == 'main' else ('tb', 'bcrt'):
        out += [ref.segwit_addr(hrp, 0, h[:20]), ref.segwit_addr(hrp, 0, h), ref.segwit_addr(hrp, 0, h).upper(), ref.segwit_addr(hrp, 1, h),
                ref.segwit_addr(hrp, 16, h[:2]), ref.segwit_addr(hrp, 16, h[:40]), ref.segwit_addr(hrp, 2, h[:20]).upper()]
    return out


OTHER = {'main': 'test', 'test': 'main'}


def units(tier):
    us = []
    for spec in WALLETS:
        for entry in ('create', 'prepare', 'send') if spec[0] == 'key' else ('create', 'prepare'):
            us.append({'t': 'pos', 'w': spec, 'entry': entry})
            us.append({'t': 'left', 'w': spec, 'entry': entry})
        us.append({'t': 'many', 'w': spec})
        us.append({'t': 'draw', 'w': spec})
    return us


def attempt(w, world, entry, outs, coins, kw, address=None):
    world.offered = []
    if entry == 'create':
        return w.obj.create_transaction(outs, unspents=coins, **kw)
    if entry == 'prepare':
        return type(w.obj).prepare_transaction(address or w.addr, outs, unspents=coins, **kw)
    r = w.obj.send(outs, unspents=coins, **kw)
    return world.offered[-1][2]


def check(ctx, w, world, entry, outs, coins, kw, bad, desc, address=None):
    ctx.case(desc)
    try:
        r = attempt(w, world, entry, list(outs), list(coins), kw, address)
    except lib.InsufficientFunds:
        ctx.outcome('insufficient')
        return None
    except ValueError as e:
        ctx.check(bad is not False, 'refused although every destination belongs to the network: %s' % e)
        ctx.check(not world.offered, 'offered to a provider although refused')
        ctx.outcome('refused')
        return None
    if bad is None:
        # only the change address is foreign: it must not be paid
        if entry != 'prepare':
            foreign = lib.spk(kw.get('leftover') or address)
            for o in ref.parse(r).outs:
                ctx.check(o.script != foreign, 'change paid to an address of the other network', tx=r)
        else:
            import json
            for o in json.loads(r)['outputs']:
                ctx.check(o[0] != (kw.get('leftover') or address), 'change prepared for an address of the other network')
        ctx.outcome('no change')
        return r
    ctx.check(not bad, 'a destination of the other network was accepted')
    ctx.outcome('accepted')
    return r


def run_unit(ctx, u):
    spec = tuple(u['w'])
    ws = wallet_set(spec)
    w = ws[0]
    world = fakenet.World()
    env.reset(handler=fakenet.combined(fakenet.Money(), world))
    good, wrong = kinds(w.net), kinds(OTHER[w.net])
    ks = w.kinds
    coins = [w.coin(ks[i % len(ks)], 40000, i, index=i) for i in range(2)]
    T = u['t']
    if T == 'pos':
        E = u['entry']
        for n in (1, 2, 3, 4):
            g = [good[(i * 3) % len(good)] for i in range(n)]
            for opt in (dict(fee=2), dict(fee=2, combine=False), dict(fee=500, absolute_fee=True), dict(fee=2, message='hello'), dict(fee=2, replace_by_fee=True)):
                for a in good:
                    outs = [(x, 600 + i, 'satoshi') for i, x in enumerate(g[:-1] + [a])]
                    check(ctx, w, world, E, outs, coins, opt, False, (spec, E, n, sorted(opt), 'good', a))
                for pos in range(n):
                    for a in wrong:
                        outs = [(x, 600 + i, 'satoshi') for i, x in enumerate(g)]
                        outs[pos] = (a, 600 + pos, 'satoshi')
                        check(ctx, w, world, E, outs, coins, opt, True, (spec, E, n, sorted(opt), pos, a))
        # exactly one right among wrong ones, and all wrong
        for a, b in itertools.product(wrong[:4], wrong[-3:]):
            check(ctx, w, world, E, [(a, 600, 'satoshi'), (b, 700, 'satoshi')], coins, dict(fee=1), True, (spec, E, 'two', a, b))
            check(ctx, w, world, E, [(a, 600, 'satoshi'), (good[0], 600, 'satoshi'), (b, 700, 'satoshi')], coins, dict(fee=1), True, (spec, E, 'three', a, b))
        # no change at all
        for a in wrong + good:
            check(ctx, w, world, E, [(a, 80000 - 1000, 'satoshi')], coins, dict(fee=1000, absolute_fee=True), a in wrong, (spec, E, 'exact', a))
    elif T == 'many':
        big = [w.coin(ks[i % len(ks)], 4000000, i, index=i) for i in range(2)]
        for n in list(range(5, 41)) + ([64, 65, 100, 128, 129, 252, 253, 256, 257, 300] if spec[0] == 'key' else [64, 101]):
            outs = [(good[(i * 3) % len(good)], 600 + i, 'satoshi') for i in range(n)]
            check(ctx, w, world, 'create', outs, big, dict(fee=1), False, (spec, 'many', n))
            for pos in range(n) if n < 41 else sorted({0, 1, n // 2, n - 2, n - 1} | set(range(0, n, 10))):
                o = list(outs)
                o[pos] = (wrong[(n + pos) % len(wrong)], 600 + pos, 'satoshi')
                check(ctx, w, world, ('create', 'prepare')[pos % 2], o, big, dict(fee=1), True, (spec, 'many', n, pos))
        # whatever the amount, the currency and the position
        for a in wrong:
            for amount, unit in ((0, 'satoshi'), (1, 'satoshi'), (545, 'satoshi'), (546, 'satoshi'), (547, 'satoshi'), (0, 'btc'), ('0.00001', 'btc'), ('1.5', 'ubtc'), (2000000, 'satoshi'), ('0.5', 'mbtc')):
                for pos in (0, 1):
                    o = [(good[1], 700, 'satoshi')]
                    o.insert(pos, (a, amount, unit))
                    for E in ('create', 'prepare'):
                        check(ctx, w, world, E, o, big, dict(fee=1), True, (spec, 'amount', a, amount, unit, pos, E))
    elif T == 'left':
        E = u['entry']
        for a in good + wrong:
            for n in (0, 1, 2):
                for opt in (dict(fee=2), dict(fee=500, absolute_fee=True), dict(fee=2, message='m'), dict(fee=2, combine=False)):
                    outs = [(good[i], 600 + i, 'satoshi') for i in range(n)]
                    kw = dict(opt, leftover=a)
                    check(ctx, w, world, E, outs, coins, kw, a in wrong and (True if opt.get('combine', True) else None), (spec, E, 'left', n, sorted(opt), a))
            # change of exactly one satoshi and none
            for rest in (0, 1):
                kw = dict(fee=500, absolute_fee=True, leftover=a)
                check(ctx, w, world, E, [(good[0], 79500 - rest, 'satoshi')], coins, kw, (True if rest else None) if a in wrong else False, (spec, E, 'rest', rest, a))
            if E == 'prepare' and a[:2].lower() != 'bc' and a[:2].lower() != 'tb':
                # the source address doubles as the default change address
                check(ctx, w, world, E, [(good[0], 600, 'satoshi')], coins, dict(fee=2), a in wrong, (spec, E, 'source', a), address=a)
                # ... and does not decide which network the others must be of
                check(ctx, w, world, E, [(good[1], 600, 'satoshi')], coins, dict(fee=2, leftover=good[0]), False, (spec, E, 'source+left', a), address=a)
                check(ctx, w, world, E, [(wrong[1], 600, 'satoshi')], coins, dict(fee=2, leftover=wrong[0]), True, (spec, E, 'source+wrong', a), address=a)
                check(ctx, w, world, E, [(wrong[1], 600, 'satoshi')], coins, dict(fee=2), True, (spec, E, 'source+wrong out', a), address=a)
    else:
        small = [w.coin(ks[i % len(ks)], 1500 + 300 * i, i, index=i) for i in range(3)]
        for a in (wrong[0], wrong[4], good[0]):
            for n, pos in ((1, 0), (2, 0), (2, 1)):
                def one(ch):
                    outs = [(good[i], 600, 'satoshi') for i in range(n)]
                    outs[pos] = (a, 600, 'satoshi')
                    check(ctx, w, world, 'create', outs, small, dict(fee=1, combine=False), a in wrong, (spec, 'draw', a, n, pos, tuple(ch.prefix)))

                explore(one, max_dev=2, ctx=ctx)
            def two(ch):
                check(ctx, w, world, 'create', [(good[0], 600, 'satoshi')], small, dict(fee=1, combine=False, leftover=a), None if a in wrong else False,
                      (spec, 'draw left', a, tuple(ch.prefix)))

            explore(two, max_dev=2, ctx=ctx)
