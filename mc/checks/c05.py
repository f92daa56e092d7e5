"""C05: the fee is exactly the absolute fee, or rate x virtual size within the
stated band, measured on the finished transaction."""
import itertools

from .. import env, harvest, lib, refbtc as ref, txo
from ..build import KEYS, finish, wallet_set
from ..explorer import explore
from .c04 import expected_change
from .c06 import Inverted

LEVEL = 'model_checking'
BOUNDS = ('every m-of-n (n<=15 compressed, <=7 uncompressed), every coin-kind sequence up to 5 (thorough 7), every input count 1..256, every output count '
          '1..258, every message length 0..330, every destination kind; rates from harvested constants and 1..1000; remaining value swept '
          'through the change/no-change boundary, to the satoshi around exact matches of every output count and of 1..5 and 250..256 inputs; random outcomes: full tree <=3 coins, else <=3 non-default choices')
ASSUMPTIONS = ['coins carry the size the wallet refresh assigns (C24 checks that assignment)']


def units(tier):
    us = []
    L = 5 if tier == 'quick' else 7
    for w in KEYS + [('ms', 'main', 2, 3, -1, False), ('ms', 'test', 1, 1, -1, False), ('ms', 'test', 2, 2, 0, False)]:
        us.append({'t': 'mix', 'w': w, 'L': L if w[0] == 'key' else L - 1})
        us.append({'t': 'sweep', 'w': w})
        us.append({'t': 'abs', 'w': w})
        us.append({'t': 'msg', 'w': w})
    for lo in range(1, 257, 16):
        us.append({'t': 'nin', 'lo': lo, 'hi': min(lo + 16, 257)})
    for lo in range(1, 259, 26):
        us.append({'t': 'nout', 'lo': lo, 'hi': min(lo + 26, 259)})
    for n in range(1, 16):
        us.append({'t': 'mn', 'n': n, 'unc': False})
    for n in range(1, 8):
        us.append({'t': 'mn', 'n': n, 'unc': True})
    for k in range(4):
        us.append({'t': 'bnb', 'k': k})
    us.append({'t': 'rates'})
    for n in [1, 2, 3, 4, 5] + list(range(250, 257)):
        us.insert(0, {'t': 'ninexact', 'n': n})
    us.append({'t': 'sigs'})
    us.append({'t': 'recommended'})
    us.append({'t': 'refresh'})
    return us


def run(ctx, ws, coins, outs, kw, desc):
    w = ws[0]
    ctx.case(desc)
    tx = w.obj.create_transaction(list(outs), unspents=list(coins), **kw)
    m = getattr(w.obj, 'm', 1)
    if m > 1:
        tx = finish(ws[:m], tx, coins)
    return judge(ctx, ws, coins, outs, tx, kw)


def judge(ctx, ws, coins, outs, tx, kw):
    v = txo.view(tx, coins, len(outs))
    fee = kw['fee']
    if kw.get('absolute_fee'):
        ctx.eq(v.fee, fee, 'absolute fee')
        ctx.outcome('absolute')
        return v
    ch = expected_change(ws, coins, kw.get('leftover'), 'create')
    lo, hi = txo.fee_bounds(v, fee, ws, kw.get('combine', True), ch)
    ctx.check(v.fee >= lo, 'fee %s is below %s sat/vbyte x %d vbytes' % (v.fee, fee, v.t.vsize), tx=tx)
    ctx.check(v.fee <= hi, 'fee %s for %d vbytes at %s sat/vbyte exceeds the bound %s' % (v.fee, v.t.vsize, fee, hi), tx=tx)
    ctx.outcome(('change' if v.change else 'no change') + ' slack<%d' % (8 * (1 + int((v.fee / fee - v.t.vsize) // 8))))
    return v


def tree(ctx, ws, coins, outs, kw, desc, dev=None):
    def one(ch):
        try:
            run(ctx, ws, coins, outs, kw, (desc, tuple(ch.prefix)))
        except lib.InsufficientFunds:
            ctx.outcome('insufficient')

    explore(one, max_dev=dev, ctx=ctx)


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'mix':
        ws = wallet_set(u['w'])
        w = ws[0]
        d = lib.dests(w.net)
        for n in range(1, u['L'] + 1):
            for kinds in itertools.product(w.kinds, repeat=n):
                coins = [w.coin(k, 50000 + 1000 * i, i, index=i) for i, k in enumerate(kinds)]
                for nout in (1, 2):
                    for rate in (1, 7):
                        run(ctx, ws, coins, [(d[(i + n) % len(d)], 1000 + i, 'satoshi') for i in range(nout)], dict(fee=rate), (u['w'], kinds, nout, rate))
    elif T == 'sweep':
        ws = wallet_set(u['w'])
        w = ws[0]
        d = lib.dests(w.net)
        for kinds in ('L', 'S', 'LS', 'SL', 'LL', 'SS') if w.seg_script else ('L', 'LL'):
            coins = [w.coin(k, 30000, i, index=i) for i, k in enumerate(kinds)]
            base = int(sum(c.vsize for c in coins)) + 8
            for rate in (1, 2):
                for combine in (True, False):
                    # from just affordable to past the exact-match range
                    for e in range(0, 330, 1 if len(kinds) == 1 else 5):
                        pay = 30000 * len(kinds) - rate * (base + e)
                        for dd in (d[0], d[3]):
                            tree(ctx, ws, coins, [(dd, pay, 'satoshi')], dict(fee=rate, combine=combine), (u['w'], kinds, rate, combine, e, dd), dev=1)
    elif T == 'abs':
        ws = wallet_set(u['w'])
        w = ws[0]
        d = lib.dests(w.net)
        fees = [f for f in harvest.amounts(1, 10**12)]
        for kinds in ('L', 'LL', 'LS'):
            if 'S' in kinds and not w.seg_script:
                continue
            for f in fees:
                for extra in (0, 1, 10**5):
                    coins = [w.coin(k, f + 5000 + extra, i, index=i) for i, k in enumerate(kinds)]
                    kw = dict(fee=f, absolute_fee=True)
                    if extra == 1:
                        kw['combine'] = False
                    run(ctx, ws, coins, [(d[0], 5000, 'satoshi')], kw, (u['w'], kinds, f, extra))
    elif T == 'msg':
        ws = wallet_set(u['w'])
        w = ws[0]
        d = lib.dests(w.net)
        for k in w.kinds:
            coins = [w.coin(k, 10**6, 0), w.coin('L', 10**6, 1)]
            for n in list(range(0, 170)) + list(range(230, 250)) + list(range(310, 330)):
                for comb in (True, False):
                    run(ctx, ws, coins, [(d[0], 1000, 'satoshi')], dict(fee=3, message='x' * n, combine=comb), (u['w'], k, n, comb))
    elif T == 'nin':
        w = lib.key_wallet()
        d = lib.dests('main')
        for n in range(u['lo'], u['hi']):
            for pat in ('S', 'L', 'LS', 'LLLS'):
                coins = [w.coin(pat[i % len(pat)], 3000 + i, i, index=i) for i in range(n)]
                run(ctx, [w], coins, [(d[0], 600, 'satoshi')], dict(fee=1), ('nin', n, pat))
    elif T == 'nout':
        w = lib.key_wallet('test')
        d = lib.dests('test')
        for n in range(u['lo'], u['hi']):
            for k in 'LS':
                for combine in (True, False):
                    coins = [w.coin(k, 10**8, 0), w.coin('L', 10**8, 1)]
                    run(ctx, [w], coins, [(d[i % len(d)], 700 + i, 'satoshi') for i in range(n)], dict(fee=2, combine=combine), ('nout', n, k, combine))
            # exact match: no change output at all
            coins = [w.coin('L', 10**8, 0)]
            outs = [(d[i % len(d)], 700 + i, 'satoshi') for i in range(n - 1)]
            size = 148 + 10 + len(ref.cs(n)) + 34 + sum(len(lib.spk(o[0])) + 9 for o in outs)
            for e in (0, 60, 180):
                last = 10**8 - sum(o[1] for o in outs) - size - e
                tree(ctx, [w], coins, outs + [(d[0], last, 'satoshi')], dict(fee=1, combine=False), ('nout exact', n, e), dev=1)
            # ... and to the satoshi around the least fee without change
            for fee in (1, 5):
                for e in range(-4, 5):
                    last = 10**8 - sum(o[1] for o in outs) - fee * (size - 1) + e
                    tree(ctx, [w], coins, outs + [(d[0], last, 'satoshi')], dict(fee=fee, combine=False), ('nout least', n, fee, e), dev=1)
    elif T == 'ninexact':
        # exact matches of many coins (every random choice the inclusion)
        w = lib.key_wallet()
        d = lib.dests('main')
        for n in [u['n']]:
            for k in 'LS':
                coins = [w.coin(k, 30000 + i, i, index=i) for i in range(n)]
                size = sum(c.vsize for c in coins) + 8 + len(ref.cs(n)) + 1 + 34 + (0.5 if k == 'S' else 0)
                for e in range(-5, 6) if n < 6 else (-2, 0, 1):
                    env.STATE.chooser = Inverted()
                    kw = dict(fee=1, combine=False)
                    pay = int(sum(c.amount for c in coins) - size - e)
                    try:
                        run(ctx, [w], coins, [(d[0], pay, 'satoshi')], kw, ('ninexact', n, k, e))
                    except lib.InsufficientFunds:
                        ctx.outcome('insufficient')
    elif T == 'mn':
        n = u['n']
        for m in range(1, n + 1):
            ws = lib.multi_wallets('main' if n % 2 else 'test', m, lib.SECRETS[:n], [not u['unc']] * n)
            d = lib.dests(ws[0].net)
            for k in ws[0].kinds:
                for nc in (1, 3):
                    coins = [ws[0].coin(k, 10**6, i) for i in range(nc)]
                    run(ctx, ws, coins, [(d[0], 10000, 'satoshi')], dict(fee=3), ('mn', m, n, k, nc, u['unc']))
    elif T == 'bnb':
        # subsets around the target, all random outcomes
        w = lib.key_wallet()
        d = lib.dests('main')
        sets = [(5000, 3000, 2000), (10000, 700, 300), (4000, 4000, 4000), (2500, 2400, 100)][u['k']:u['k'] + 1]
        for amts in sets:
            for pat in ('LLL', 'SSS', 'LSL', 'SLS'):
                coins = [w.coin(pat[i], a, i, index=i) for i, a in enumerate(amts)]
                for target in sorted({sum(c) - x for r in (1, 2, 3) for c in itertools.combinations(amts, r) for x in (160, 220, 340, 420, 560)}):
                    if target <= 0:
                        continue
                    tree(ctx, [w], coins, [(d[0], target, 'satoshi')], dict(fee=1, combine=False), (amts, pat, target), dev=3)
    elif T == 'rates':
        w = lib.key_wallet()
        d = lib.dests('main')
        for rate in sorted(set(harvest.near(1, 100000)) | set(range(1, 130)) | {500, 1000, 1001}):
            for kinds in ('L', 'S', 'LS'):
                for comb in (True, False):
                    coins = [w.coin(k, 10**9, i, index=i) for i, k in enumerate(kinds)]
                    run(ctx, [w], coins, [(d[2], 10**6, 'satoshi')], dict(fee=rate, combine=comb), (rate, kinds, comb))
    elif T == 'sigs':
        # many signature lengths: the lower bound must hold for the longest
        for si in range(6):
            for comp in (True, False):
                w = lib.key_wallet('main', comp, lib.SECRETS[si])
                for i in range(150):
                    coins = [w.coin(k, 10**6, j) for j, k in enumerate(w.kinds)]
                    run(ctx, [w], coins, [(lib.dests('main')[0], 5000 + i, 'satoshi')], dict(fee=1), ('sigs', si, comp, i))
    elif T == 'recommended':
        # no fee given: the recommended rate applies
        from bit.network import fees

        for spec in KEYS + [('ms', 'main', 2, 3, -1, False), ('ms', 'test', 1, 2, -1, True), ('ms', 'test', 2, 2, 0, False)]:
            ws = wallet_set(spec)
            w = ws[0]
            m = getattr(w.obj, 'm', 1)
            d = lib.dests(w.net)
            outs = [(d[0], 5000, 'satoshi')]
            for rate in (1, 5, 33, 250):
                def h(q, rate=rate):
                    return (200, '{"fastestFee":%d,"halfHourFee":%d,"hourFee":%d}' % (rate, rate + 1000, rate + 2000))

                env.NET.reset(h)
                env.STATE.now += 10**6  # past any cache time
                for kinds in ('L', 'S', 'LS') if w.seg_script else ('L', 'LL'):
                    for opt in ({}, dict(fee=None), dict(combine=False), dict(leftover=d[1]), dict(message='hello'), dict(replace_by_fee=True), dict(message=b'abc', message_is_hex=True),
                                dict(combine=False, message='m', leftover=d[2])):
                        coins = [w.coin(k, 10**6, i) for i, k in enumerate(kinds)]
                        for comp in (None, True, False):
                            ctx.case(('recommended', spec, rate, kinds, sorted(opt), comp))
                            env.STATE.chooser = env.Chooser()
                            if comp is None:
                                tx = w.obj.create_transaction(list(outs), unspents=list(coins), **opt)
                            else:
                                data = type(w.obj).prepare_transaction(w.seg_addr if 'S' in kinds else w.addr, list(outs), compressed=comp, unspents=list(coins), **opt)
                                tx = w.obj.sign_transaction(data)
                            if m > 1:
                                tx = finish(ws[:m], tx, coins)
                            judge(ctx, ws, coins, outs, tx, dict(opt, fee=rate))
    elif T == 'refresh':
        # coins the wallet fetched itself: sizes assigned by the refresh
        from ..fakenet import World

        specs = KEYS + [('ms', net, m, n, unc, False) for net in ('main', 'test') for n in (1, 2, 3, 7, 11, 15) for m in sorted({1, (n + 1) // 2, n}) for unc in (-1, 0)
                        if unc < 0 or n <= 7]
        for spec in specs:
            ws = wallet_set(spec)
            w = ws[0]
            for kinds in ('L', 'S', 'LS', 'LL') if w.seg_script else ('L', 'LL'):
                world = World()
                coins = [w.coin(k, 300000 + i, i, index=i) for i, k in enumerate(kinds)]
                for c in coins:
                    world.add(w.net, bytes.fromhex(c.script), c.txid, c.txindex, c.amount)
                env.reset(handler=world.handler)
                got = w.obj.get_unspents()
                tx = None
                outs = [(lib.dests(w.net)[0], 9000, 'satoshi')]
                ctx.case(('refresh', spec, kinds))
                tx = w.obj.create_transaction(outs, fee=3)
                m = getattr(w.obj, 'm', 1)
                if m > 1:
                    tx = finish(ws[:m], tx, coins)
                judge(ctx, ws, list(w.obj.unspents), outs, tx, dict(fee=3))
