"""C04: payments, order, change and conservation, for every random outcome."""
import itertools

from .. import env, harvest, lib, refbtc as ref, txo
from ..build import KEYS, finish, valid, wallet_set
from ..explorer import Violation, explore

LEVEL = 'model_checking'
BOUNDS = ('wallet kinds x all coin-kind sequences up to 3 coins x payment lists up to 3 x {default, own, foreign change address} x {combine, '
          'select} x {absolute fee, rate} x {no message, message}: full tree of random outcomes for <=2 coins (and 3 with absolute fee), otherwise '
          'all outcomes with at most 2-4 non-default random choices; every output count to 258; all orders of up to 5 payments; payments to the change address at every subset of positions of up to 4; amounts: format boundaries and every source constant +-1; units satoshi/ubtc/mbtc/btc '
          'as int, str, float; change around zero and dust; change of 1 satoshi to 10^14 beside up to 30 payments and messages of 1 to 3 outputs')
ASSUMPTIONS = ['fiat units are covered by C21/C22']
FILES = ['bit/transaction.py', 'bit/utils.py', 'bit/wallet.py', 'bit/format.py', 'bit/network/meta.py', 'bit/constants.py']
WALLETS = KEYS + [('ms', 'main', 1, 2, -1, False), ('ms', 'test', 2, 2, -1, True), ('ms', 'main', 2, 3, 1, False)]


def units(tier):
    us = []
    for w in WALLETS:
        for combine in (True, False):
            for absolute in (True, False):
                for n in (1, 2, 3):
                    us.append({'t': 'grid', 'w': w, 'combine': combine, 'abs': absolute, 'n': n})
        us.append({'t': 'amounts', 'w': w})
        us.append({'t': 'edge', 'w': w})
    for net in ('main', 'test'):
        us.append({'t': 'units', 'net': net})
        us.append({'t': 'dests', 'net': net})
        us.append({'t': 'perms', 'net': net})
    for lo in range(1, 259, 43):
        us.append({'t': 'nout', 'lo': lo, 'hi': min(lo + 43, 259)})
    for n, dev in ((9, 1), (6, 2), (5, 3), (4, 3)):
        for pat in ('L', 'S', 'LS'):
            us.insert(0, {'t': 'many', 'n': n, 'pat': pat, 'dev': dev if tier == 'quick' else dev + 1})
    if tier == 'thorough':
        for w in WALLETS:
            us.append({'t': 'grid', 'w': w, 'combine': False, 'abs': True, 'n': 4})
    us.append({'t': 'netdefault'})
    us.append({'t': 'self'})
    us += [{'t': 'wide', 'w': w} for w in WALLETS]
    return us


def expected_change(ws, coins, leftover, entry):
    if leftover:
        return lib.spk(leftover)
    w = ws[0]
    if entry == 'prepare':
        return w.script
    return w.seg_script if any(c.segwit for c in coins) else w.script


def judge(ctx, ws, coins, outs, tx, kw, entry='create', sats=None):
    sats = sats if sats is not None else [int(a) for _, a, _ in outs]
    try:
        v = txo.view(tx, coins, len(outs))
    except Violation:
        raise
    ctx.eq(v.pays, [(lib.spk(d), a) for (d, _, _), a in zip(outs, sats)], 'payments in the requested order')
    ctx.check(len(v.rest) <= 1, 'outputs other than payments, one change and messages', outs=v.rest)
    msg = kw.get('message')
    msg = b'' if not msg else msg if isinstance(msg, bytes) else msg.encode()
    ctx.eq(len(v.data), -(-len(msg) // 80), 'number of message outputs')
    ch = expected_change(ws, coins, kw.get('leftover'), entry)
    if v.change is not None:
        ctx.eq(v.change[0], ch, 'change script')
        ctx.check(v.change[1] > 0, 'change of zero')
    if kw.get('absolute_fee'):
        ctx.eq(v.fee, kw['fee'], 'inputs minus outputs, with an absolute fee')
    else:
        lo, hi = txo.fee_bounds(v, kw['fee'], ws, kw.get('combine', True), ch)
        ctx.check(0 <= v.fee <= hi, 'value is lost: fee %d for %d vbytes at rate %s' % (v.fee, v.t.vsize, kw['fee']), tx=tx)
    if kw.get('combine', True):
        ctx.eq([(c.txid, c.txindex) for c in v.spent], [(c.txid, c.txindex) for c in coins], 'all coins are spent, in order, when combining')
    return v


def run(ctx, ws, coins, outs, entry, kw, sats=None):
    w = ws[0]
    if entry == 'create':
        tx = w.obj.create_transaction(list(outs), unspents=list(coins), **kw)
    else:
        tx = w.obj.sign_transaction(type(w.obj).prepare_transaction(w.addr, list(outs), unspents=list(coins), **kw))
    if getattr(w.obj, 'm', 1) > 1:
        tx = finish(ws[:w.obj.m], tx, coins)
    return judge(ctx, ws, coins, outs, tx, kw, entry, sats)


def tree(ctx, ws, coins, outs, entry, kw, desc, dev=None, limit=None):
    """All random outcomes; afford: whole set suffices, so it must succeed."""
    def one(ch):
        env.NET.reset()
        ctx.case((desc, tuple(ch.prefix)))
        try:
            v = run(ctx, ws, coins, outs, entry, kw)
            ctx.outcome('change' if v.change else 'no change')
        except lib.InsufficientFunds:
            need = sum(int(a) for _, a, _ in outs)
            have = sum(c.amount for c in coins)
            fee = kw['fee'] if kw.get('absolute_fee') else kw['fee'] * (sum(c.vsize for c in coins) + 60 + 43 * (len(outs) + 1) + 100)
            ctx.check(have < need + fee, 'refused for insufficient funds with %d available for %d' % (have, need))
            ctx.outcome('insufficient')

    explore(one, max_dev=dev, limit=limit, ctx=ctx)


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'grid':
        ws = wallet_set(u['w'])
        d = lib.dests(ws[0].net)
        w = ws[0]
        base = (7000, 21000, 5200, 900)
        lefts = [None, d[2], w.addr] + ([w.seg_addr] if w.seg_addr else [])
        ki = 0
        for kinds in itertools.product(w.kinds, repeat=u['n']):
            ki += 1
            coins = [w.coin(k, base[i], i, index=i) for i, k in enumerate(kinds)]
            tot = sum(c.amount for c in coins)
            for pays in ([1000], [tot - 4000], [tot - 3000, 600], [800, 600, 700]):
                if min(pays) <= 0:
                    continue
                for li, left in enumerate(lefts):
                    for msg in (None, 'hello'):
                        if u['n'] == 3 and not u['combine'] and (li + ki + bool(msg)) % 2:
                            continue
                        for entry in ('create', 'prepare') if left and msg is None else ('create',):
                            outs = [(d[(i + li) % len(d)], a, 'satoshi') for i, a in enumerate(pays)]
                            kw = dict(fee=300 if u['abs'] else 3, absolute_fee=u['abs'], combine=u['combine'], leftover=left, message=msg)
                            tree(ctx, ws, coins, outs, entry, kw, (u['w'], kinds, pays, li, msg, entry, u['abs'], u['combine']),
                                 dev=None if u['n'] < 3 or u['abs'] else 3)
    elif T == 'amounts':
        ws = wallet_set(u['w'])
        w = ws[0]
        d = lib.dests(w.net)
        for k in w.kinds:
            for a in harvest.amounts(1, harvest.MAXM - 10**6, FILES):
                for extra in (0, 1, 100000):
                    coins = [w.coin(k, a + 500 + extra, 0)]
                    outs = [(d[0], a, 'satoshi')]
                    kw = dict(fee=500, absolute_fee=True)
                    ctx.case((u['w'], k, a, extra))
                    v = run(ctx, ws, coins, outs, 'create', kw)
                    ctx.eq(v.change[1] if v.change else 0, extra, 'change')
                    ctx.outcome('change' if v.change else 'no change')
                # a as the change amount
                coins = [w.coin(k, a + 1500, 0)]
                ctx.case((u['w'], k, 'change', a))
                v = run(ctx, ws, coins, [(d[1], 1000, 'satoshi')], 'create', dict(fee=500, absolute_fee=True))
                ctx.eq(v.change and v.change[1], a, 'change')
    elif T == 'edge':
        # remaining value swept through every value around zero and dust
        ws = wallet_set(u['w'])
        w = ws[0]
        d = lib.dests(w.net)
        for kinds in ('L', 'S', 'LS', 'SL', 'LL', 'SS') if w.seg_script else ('L', 'LL'):
            for rate in (1, 2):
                for excess in list(range(0, 620, 1 if len(kinds) == 1 else 7)):
                    for combine in (True, False):
                        coins = [w.coin(k, 20000, i, index=i) for i, k in enumerate(kinds)]
                        tot = 20000 * len(kinds)
                        size = int(sum(c.vsize for c in coins)) + 12
                        pay = tot - rate * size - excess
                        outs = [(d[0], pay, 'satoshi')]
                        kw = dict(fee=rate, combine=combine)
                        tree(ctx, ws, coins, outs, 'create', kw, (u['w'], kinds, rate, excess, combine), dev=1)
    elif T == 'units':
        w = lib.key_wallet(u['net'])
        d = lib.dests(u['net'])
        per = {'satoshi': 0, 'ubtc': 2, 'mbtc': 5, 'btc': 8}
        for cur, p in per.items():
            for sat in harvest.amounts(1, harvest.MAXM // 2, FILES):
                whole, frac = divmod(sat, 10**p)
                text = '%d' % whole if not p else '%d.%0*d' % (whole, p, frac)
                forms = [text]
                if p == 0 or frac == 0:
                    forms.append(whole)
                f = float(text)
                if repr(f) == text or (p and ('%.*f' % (p, f)) == text and len(text.replace('.', '').lstrip('0')) <= 15):
                    forms.append(f)
                for amt in forms:
                    ctx.case((cur, amt, type(amt).__name__))
                    coins = [w.coin('L', harvest.MAXM, 0)]
                    run(ctx, [w], coins, [(d[0], amt, cur), (d[1], 5, 'satoshi')], 'create', dict(fee=10, absolute_fee=True), sats=[sat, 5])
                    ctx.outcome(cur)
    elif T == 'dests':
        w = lib.key_wallet(u['net'])
        d = lib.dests(u['net'])
        for a, b in itertools.product(d + [w.addr, w.seg_addr], repeat=2):
            for left in [None] + d:
                for k in 'LS':
                    for entry in ('create', 'prepare'):
                        ctx.case((a, b, left, k, entry))
                        run(ctx, [w], [w.coin(k, 10**6, 0)], [(a, 1000, 'satoshi'), (b, 1000, 'satoshi')], entry, dict(fee=10, absolute_fee=True, leftover=left))
                        ctx.outcome('paid')
    elif T == 'self':
        # payments to the change address itself, at every position, once or several times
        for spec in WALLETS:
            ws = wallet_set(spec)
            w = ws[0]
            d = lib.dests(w.net)
            for k in w.kinds:
                for left in [None, d[2], w.addr]:
                    back = left or (w.seg_addr if k == 'S' else w.addr)
                    for n in (1, 2, 3, 4):
                        for pat in itertools.product((0, 1), repeat=n):
                            for change in (0, 777, 50000):
                                for kw in (dict(fee=100, absolute_fee=True), dict(fee=100, absolute_fee=True, message='hi'), dict(fee=100, absolute_fee=True, combine=False)):
                                    outs = [(back if p else d[i % 2], 600 + (i % 2) * 177, 'satoshi') for i, p in enumerate(pat)]
                                    coins = [w.coin(k, 20000, 0), w.coin('L' if w.kinds[-1] == 'L' else k, sum(o[1] for o in outs) + change - 20000 + 100 + 20000, 1)]
                                    coins = coins[1:] if change != 777 else coins
                                    if k == 'S' and left is None and not all(c.segwit for c in coins):
                                        continue
                                    ctx.case((spec, k, left, pat, change, sorted(kw)))
                                    run(ctx, ws, coins, outs, 'create', dict(kw, leftover=left))
                                    ctx.outcome('paid')
    elif T == 'wide':
        # change from one satoshi to millions of coins, beside many payments and long messages
        ws = wallet_set(u['w'])
        w = ws[0]
        d = lib.dests(w.net)
        for k in w.kinds:
            for n in (1, 2, 3, 4, 6, 8, 10, 16, 20, 30):
                for change in (0, 1, 2, 3, 545, 546, 547, 2**16, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 10**10, 2**40, 10**14):
                    for msg in (None, 'x', 'y' * 80, 'z' * 81, 'w' * 200):
                        for combine in (True, False):
                            outs = [(d[i % 3], 600 + i, 'satoshi') for i in range(n)]
                            coins = [w.coin(k, sum(o[1] for o in outs) + change + 700, 0)]
                            kw = dict(fee=700, absolute_fee=True, message=msg, combine=combine)
                            ctx.case((u['w'], k, n, change, msg, combine))
                            v = run(ctx, ws, coins, outs, 'create', kw)
                            ctx.eq(v.change[1] if v.change else 0, change, 'change')
                            ctx.outcome('change' if v.change else 'no change')
    elif T == 'perms':
        # every order of up to five distinct payments
        w = lib.key_wallet(u['net'])
        d = lib.dests(u['net'])
        for n in range(2, 6):
            for am in itertools.permutations((600, 700, 800, 900, 90000)[:n] if n < 5 else (600, 700, 800, 900, 90000)):
                for k in 'LS':
                    for msg, change in ((None, 0), (None, 5000), ('hi', 5000)):
                        for entry in ('create', 'prepare'):
                            coins = [w.coin(k, sum(am) + 100 + change, 0)]
                            ctx.case((u['net'], am, k, msg, change, entry))
                            run(ctx, [w], coins, [(d[i % 3], a, 'satoshi') for i, a in enumerate(am)], entry, dict(fee=100, absolute_fee=True, message=msg))
                            ctx.outcome('paid')
    elif T == 'nout':
        w = lib.key_wallet()
        d = lib.dests('main')
        for n in range(u['lo'], u['hi']):
            for k in 'LS':
                for kw in (dict(fee=10, absolute_fee=True), dict(fee=2), dict(fee=2, combine=False)):
                    coins = [w.coin(k, 10**7, 0), w.coin('L', 10**7 + 5, 1)]
                    ctx.case((n, k, kw))
                    run(ctx, [w], coins, [(d[(i * 7 + i // 8) % len(d)], 600 + i * 37 % 101, 'satoshi') for i in range(n)], 'create', kw)
                    ctx.outcome('paid')
    elif T == 'many':
        w = lib.key_wallet('test')
        d = lib.dests('test')
        for pat in (u['pat'],):
            coins = [w.coin(pat[i % len(pat)], 1000 * (i + 1) + 17 * i, i, index=i) for i in range(u['n'])]
            tot = sum(c.amount for c in coins)
            for frac in (10, 3, 2):
                for absf in (True, False):
                    tree(ctx, [w], coins, [(d[0], tot // frac, 'satoshi')], 'create', dict(fee=150 if absf else 1, absolute_fee=absf, combine=False),
                         (u['n'], pat, frac, absf), dev=u['dev'])
    elif T == 'netdefault':
        # coins left to the library: fetched by the wallet itself
        from ..fakenet import World

        for spec in KEYS + [('ms', 'main', 1, 1, -1, False), ('ms', 'test', 1, 2, -1, False)]:
            ws = wallet_set(spec)
            w = ws[0]
            for kinds in ('L', 'S', 'LS', 'SL') if w.seg_script else ('L', 'LL'):
                world = World()
                coins = [w.coin(k, 30000 + i, i, index=i) for i, k in enumerate(kinds)]
                for c in coins:
                    world.add(w.net, bytes.fromhex(c.script), c.txid, c.txindex, c.amount)
                for left in (None, lib.dests(w.net)[1]):
                    for kw in (dict(fee=300, absolute_fee=True), dict(fee=1), dict(fee=1, combine=False)):
                        ctx.case((spec, kinds, left, kw), calls=2)
                        env.reset(handler=world.handler)
                        tx = w.obj.create_transaction([(lib.dests(w.net)[0], 9000, 'satoshi')], leftover=left, **kw)
                        got = list(w.obj.unspents)
                        ctx.eq(sorted((c.txid, c.txindex) for c in got), sorted((c.txid, c.txindex) for c in coins), 'coins fetched')
                        v = judge(ctx, ws, got, [(lib.dests(w.net)[0], 9000, 'satoshi')], tx, dict(kw, leftover=left))
                        valid(tx, coins, 'transaction')
                        ctx.outcome('paid from fetched coins')
