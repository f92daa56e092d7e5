"""C07: building a transaction changes nothing the caller can see, and its
result is a function of its arguments and random outcomes, not of history."""
import itertools

from .. import env, fakenet, lib, refbtc as ref
from ..build import KEYS, unsigned_hex, wallet_set
from ..explorer import explore, isolated

LEVEL = 'model_checking'
BOUNDS = ('side effects: every wallet kind x entry point x option set x success or failure, all random outcomes with <=2 non-default choices; lists of 5..101 unordered coins and 1..33 outputs; '
          'history independence: every sequence of up to 3 (thorough 4) operations of a 13-letter alphabet on one wallet, each in a fresh process, '
          'each operation compared with the same operation alone')
ASSUMPTIONS = []

WALLETS = KEYS + [('ms', 'main', 2, 3, -1, False), ('ms', 'test', 1, 2, -1, True), ('ms', 'test', 2, 2, 0, False)]


def snap(coins, outs):
    return ([id(c) for c in coins], [c.to_dict() for c in coins], [(type(o).__name__, id(o), repr(list(o))) for o in outs], len(coins), len(outs))


def options():
    o = []
    for combine in (True, False):
        for rbf in (True, False):
            for msg in (None, 'hello', 'x' * 90):
                for fee in ((5, False), (1000, True)):
                    o.append(dict(combine=combine, replace_by_fee=rbf, message=msg, fee=fee[0], absolute_fee=fee[1]))
    return o


OPS = ['pay', 'pay2', 'rbf', 'draw', 'abs', 'msg', 'poor', 'badnet', 'badaddr', 'badcur', 'prepare', 'prepare-rbf', 'resign']


def do(w, coins, op):
    """One operation on the shared wallet and the shared coin list."""
    d = lib.dests(w.net)
    other = lib.dests('test' if w.net == 'main' else 'main')
    f = w.obj.create_transaction
    if op == 'pay':
        return f([(d[0], 700, 'satoshi')], fee=3, unspents=coins)
    if op == 'pay2':
        return f([(d[1], 900, 'satoshi'), (d[3], '0.00001', 'btc')], fee=2, unspents=coins, leftover=d[2])
    if op == 'rbf':
        return f([(d[0], 700, 'satoshi')], fee=3, unspents=coins, replace_by_fee=True)
    if op == 'draw':
        return f([(d[0], 700, 'satoshi')], fee=3, unspents=coins, combine=False)
    if op == 'abs':
        return f([(d[0], 700, 'satoshi')], fee=333, absolute_fee=True, unspents=coins, combine=False)
    if op == 'msg':
        return f([(d[0], 700, 'satoshi')], fee=3, unspents=coins, message='m' * 100)
    if op == 'poor':
        return f([(d[0], 10**12, 'satoshi')], fee=3, unspents=coins, replace_by_fee=True)
    if op == 'badnet':
        return f([(d[0], 700, 'satoshi'), (other[0], 700, 'satoshi')], fee=3, unspents=coins, replace_by_fee=True)
    if op == 'badaddr':
        return f([(d[0], 700, 'satoshi'), (d[0][:-1] + ('2' if d[0][-1] != '2' else '3'), 700, 'satoshi')], fee=3, unspents=coins)
    if op == 'badcur':
        return f([(d[0], 700, 'satoshi'), (d[0], 700, 'nosuch')], fee=3, unspents=coins)
    cls = type(w.obj)
    if op == 'prepare':
        return cls.prepare_transaction(w.addr, [(d[0], 700, 'satoshi')], fee=3, unspents=coins)
    if op == 'prepare-rbf':
        return cls.prepare_transaction(w.addr, [(d[0], 700, 'satoshi')], fee=3, unspents=coins, replace_by_fee=True, combine=False)
    if op == 'resign':
        return w.obj.sign_transaction(unsigned_hex(coins, [(d[0], 700)]), unspents=coins)
    if op == 'usd':
        return f([(d[0], 3, 'usd')], fee=3, unspents=coins)
    if op == 'recommended':
        return f([(d[0], 700, 'satoshi')], unspents=coins)
    raise AssertionError(op)


def attempt(w, coins, op):
    try:
        return ('ok', do(w, coins, op))
    except Exception as e:
        return ('err', type(e).__name__)


def fresh(spec):
    env.reset(handler=fakenet.Money({'bitpay': {'usd': 25000}}).handler)
    ws = wallet_set(spec)
    w = ws[0]
    kinds = 'LS' if w.seg_script else 'L'
    coins = [w.coin(kinds[i % len(kinds)], 20000 + 5000 * i, i, index=i, sequence=(None, 5, 0xFFFFFFFE)[i]) for i in range(3)]
    return ws, w, coins


def units(tier):
    us = []
    for spec in WALLETS:
        us.append({'t': 'effects', 'w': spec})
        us.append({'t': 'odd', 'w': spec})
        us.append({'t': 'failures', 'w': spec})
    L = 3 if tier == 'quick' else 4
    for spec in WALLETS[:3] + WALLETS[4:5]:
        for first in OPS + ['usd', 'recommended']:
            us.append({'t': 'seq', 'w': spec, 'first': first, 'L': L if spec == WALLETS[0] else L - 1})
    us.append({'t': 'own'})
    for spec in WALLETS:
        us.append({'t': 'large', 'w': spec})
    return us


def run_unit(ctx, u):
    T = u['t']
    if T == 'effects':
        ws, w, coins = fresh(tuple(u['w']))
        d = lib.dests(w.net)
        for k in (1, 2, 3):
            for kw in options():
                for entry in ('create', 'prepare'):
                    for nout in (0, 1, 2):
                        def one(ch):
                            cs = coins[:k]
                            outs = [(d[i], 800 + i, 'satoshi') if i else [d[i], '0.000008', 'btc'] for i in range(nout)]
                            if nout == 2:
                                outs[1] = (d[1], 801, 'satoshi')
                            before = snap(cs, outs)
                            kws = dict(kw)
                            desc = (u['w'], k, sorted(kw.items(), key=str), entry, nout, tuple(ch.prefix))
                            ctx.case(repr(desc))
                            try:
                                if entry == 'create':
                                    w.obj.create_transaction(outs, unspents=cs, **kw)
                                else:
                                    type(w.obj).prepare_transaction(w.addr, outs, unspents=cs, **kw)
                                ctx.outcome('built')
                            except lib.InsufficientFunds:
                                ctx.outcome('insufficient')
                            ctx.eq(snap(cs, outs), before, "the caller's coins or outputs changed")
                            ctx.eq(kw, kws, 'options changed')

                        explore(one, max_dev=2 if k < 3 else 1, ctx=ctx)
    elif T == 'odd':
        # coins with unusual attributes, and with objects shared or repeated
        ws, w, _ = fresh(tuple(u['w']))
        d = lib.dests(w.net)
        scripts = [w.script] + ([w.seg_script] if w.seg_script else [])
        mk = lib.Unspent
        for s in scripts:
            types = ('unknown', 'p2pkh', 'p2sh', 'p2pkh-uncompressed') + (('np2wkh', 'np2wsh') if s == w.seg_script else ())
            variants = [dict(type=t, vsize=v, sequence=q) for t in types for v in (None, 77, 300.5)
                        for q in (0, 0xFFFFFFFE, 0xFFFFFFFF)]
            for a, va in enumerate(variants):
                for conf in (0, 1, 10**6):
                    for rbf in (True, False):
                        for entry in ('create', 'prepare', 'sign'):
                            cs = [mk(50000, conf, s.hex(), lib.coin_txid('odd', a), 3, **va), w.coin('L', 20000, 1, sequence=9), w.coin('l', 20000, 2)]
                            outs = [(d[0], 700, 'satoshi'), [d[1], 0.00001, 'btc']]
                            before = snap(cs, outs)
                            ctx.case((u['w'], s.hex(), sorted(va.items(), key=str), conf, rbf, entry))
                            try:
                                if entry == 'create':
                                    w.obj.create_transaction(outs, unspents=cs, fee=2, replace_by_fee=rbf)
                                elif entry == 'prepare':
                                    type(w.obj).prepare_transaction(w.addr, outs, unspents=cs, fee=2, replace_by_fee=rbf)
                                else:
                                    w.obj.sign_transaction(unsigned_hex(cs, [(d[0], 700)]), unspents=cs)
                            except (ValueError, lib.InsufficientFunds) as e:
                                ctx.outcome(type(e).__name__)
                            ctx.eq(snap(cs, outs), before, "the caller's coins or outputs changed")
                            ctx.outcome('odd coins')
    elif T == 'large':
        # long lists in no particular order of anything
        ws, w, _ = fresh(tuple(u['w']))
        d = lib.dests(w.net)
        for n in (5, 17, 40, 101):
            for kw in options():
                for entry in ('create', 'prepare'):
                    cs = [w.coin(w.kinds[i % len(w.kinds)], 9000 + (i * 37) % 101, (i * 7) % n, index=(i * 5) % 11, conf=(i * 13) % 29, sequence=(None, 7, 0xFFFFFFFE)[i % 3])
                          for i in range(n)]
                    outs = [(d[(i * 3) % len(d)], 700 + (i * 11) % 17, 'satoshi') for i in range(n // 3)]
                    before = snap(cs, outs)
                    ctx.case((u['w'], 'large', n, sorted(kw.items(), key=str), entry))
                    env.STATE.chooser = env.Chooser()
                    try:
                        if entry == 'create':
                            w.obj.create_transaction(outs, unspents=cs, **kw)
                        else:
                            type(w.obj).prepare_transaction(w.addr, outs, unspents=cs, **kw)
                        ctx.outcome('large')
                    except lib.InsufficientFunds:
                        ctx.outcome('insufficient')
                    ctx.eq(snap(cs, outs), before, "the caller's coins or outputs changed")
    elif T == 'failures':
        ws, w, coins = fresh(tuple(u['w']))
        d = lib.dests(w.net)
        other = lib.dests('test' if w.net == 'main' else 'main')
        bad = {'net': (other[0], 700, 'satoshi'), 'addr': (d[0] + 'x', 700, 'satoshi'), 'cur': (d[0], 700, 'zzz'), 'amount': (d[0], 'x', 'btc'),
               'rates-down': (d[0], 1, 'eur'), 'much': (d[0], 10**13, 'satoshi'), 'arity': (d[0], 1)}
        for what, b in bad.items():
            for n in (1, 2, 3):
                for pos in range(n):
                    for entry in ('create', 'prepare'):
                        for rbf in (True, False):
                            for combine in (True, False):
                                outs = [(d[i], 700, 'satoshi') for i in range(n)]
                                outs[pos] = b
                                cs = list(coins)
                                before = snap(cs, outs)
                                ctx.case((u['w'], what, n, pos, entry, rbf, combine))
                                try:
                                    if entry == 'create':
                                        w.obj.create_transaction(outs, unspents=cs, fee=2, replace_by_fee=rbf, combine=combine)
                                    else:
                                        type(w.obj).prepare_transaction(w.addr, outs, unspents=cs, fee=2, replace_by_fee=rbf, combine=combine)
                                    ctx.fail('%s was accepted' % what)
                                except Exception as e:
                                    if type(e).__name__ == 'Violation':
                                        raise
                                    ctx.outcome(type(e).__name__)
                                ctx.eq(snap(cs, outs), before, "the caller's coins or outputs changed by a failed call")
                                # and the next call on the same objects is unaffected
                                if rbf and combine:
                                    r = attempt(w, cs, 'pay')
                                    w2 = fresh(tuple(u['w']))
                                    ctx.eq(r, attempt(w2[1], w2[2], 'pay'), 'transaction after a failed call')
    elif T == 'seq':
        spec = tuple(u['w'])
        al = OPS + ['usd', 'recommended']

        def alone(op):
            ws, w, coins = fresh(spec)
            return attempt(w, coins, op)

        base = {op: isolated(alone, op) for op in al}
        for op, r in base.items():
            ctx.check(r[0] == 'err' if op in ('poor', 'badnet', 'badaddr', 'badcur') else r[0] == 'ok', 'operation %s alone: %r' % (op, r))

        def run(seq):
            ws, w, coins = fresh(spec)
            out = []
            for op in seq:
                env.STATE.chooser = env.Chooser()
                out.append(attempt(w, coins, op))
            return out

        for n in range(1, u['L']):
            for rest in itertools.product(al, repeat=n):
                seq = (u['first'],) + rest
                if n + 1 > 3 and len(set(seq)) < len(seq):
                    continue
                ctx.case((spec, seq), calls=len(seq))
                got = isolated(run, seq)
                for op, r in zip(seq, got):
                    ctx.eq(r, base[op], 'result of %s in the sequence %s' % (op, '/'.join(seq)))
                ctx.outcome('sequence of %d' % len(seq))
    elif T == 'own':
        # the wallet's own coin list is the argument when none is given
        for spec in WALLETS:
            ws, w, _ = fresh(spec)
            world = fakenet.World()
            scripts = [w.script] + ([w.seg_script] if w.seg_script else [])
            for i, s in enumerate(scripts):
                world.add(w.net, s, lib.coin_txid(w.name, i), i, 40000 + i)
            env.NET.reset(fakenet.combined(fakenet.Money(), world))
            w.obj.get_unspents()
            d = lib.dests(w.net)
            for rbf in (True, False):
                for combine in (True, False):
                    for amount in (1000, 10**10):
                        before = [c.to_dict() for c in w.obj.unspents], w.obj.balance
                        ctx.case((spec, 'own', rbf, combine, amount))
                        try:
                            w.obj.create_transaction([(d[0], amount, 'satoshi')], fee=2, unspents=w.obj.unspents, replace_by_fee=rbf, combine=combine)
                        except lib.InsufficientFunds:
                            pass
                        ctx.eq(([c.to_dict() for c in w.obj.unspents], w.obj.balance), before, "the wallet's coins or balance changed")
                        try:
                            w.obj.create_transaction([(d[0], amount, 'satoshi')], fee=2, replace_by_fee=rbf, combine=combine)
                        except lib.InsufficientFunds:
                            pass
                        ctx.eq(([c.to_dict() for c in w.obj.unspents], w.obj.balance), before, "the wallet's coins or balance changed")
                        ctx.outcome('own coins')
