"""C08: sequence numbers of every input for every coin sequence, with and
without replace-by-fee, through every entry point and in every history."""
import itertools

from .. import env, fakenet, lib, refbtc as ref
from ..build import KEYS, finish, wallet_set
from ..explorer import explore, isolated

LEVEL = 'model_checking'
BOUNDS = ('every assignment of 11 boundary sequence numbers to 1..3 coins x replace-by-fee on/off x create, prepare+sign, send x wallet kinds; '
          'single coins: every power-of-two boundary of the field; 1..2 coins of every declared or undeclared kind x 0..10^6 confirmations; '
          '4..101 coins with one deviating position; random selection with all outcomes up to 2 non-default choices; all histories of '
          'up to 4 (thorough 6) on/off transactions over the same coin objects and the same wallet')
ASSUMPTIONS = []
SEQ = [None, 0, 1, 144, 0x00400001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFC, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF]
WALLETS = [KEYS[0], KEYS[3], ('ms', 'main', 2, 3, -1, False), ('ms', 'test', 2, 2, 0, False)]


GIVEN = {}


def coin(w, kind, amount, n, index=0, sequence=None, conf=6):
    c = w.coin(kind, amount, n, index=index, sequence=sequence, conf=conf)
    GIVEN[(c.txid, c.txindex)] = 0xFFFFFFFF if sequence is None else sequence
    return c


def expect(ctx, tx, coins, rbf):
    t = ref.parse(tx)
    # the sequence the coin was created with, wherever coin() made it
    by = {(c.txid, c.txindex): GIVEN.get((c.txid, c.txindex), c.sequence) for c in coins}
    ctx.check(len(t.ins) > 0, 'no inputs')
    for i in t.ins:
        want = by[(i.txid[::-1].hex(), i.index)]
        if not rbf:
            ctx.eq(i.sequence, want, 'sequence of an input without replace-by-fee', tx=tx)
        elif want <= 0xFFFFFFFD:
            ctx.eq(i.sequence, want, "a coin's own sequence with replace-by-fee", tx=tx)
        else:
            ctx.check(0x80000000 <= i.sequence <= 0xFFFFFFFD, 'input with sequence %#x does not just signal replaceability' % i.sequence, tx=tx)


def build(ws, coins, rbf, entry, kw, world=None):
    w = ws[0]
    d = lib.dests(w.net)
    outs = [(d[0], 700, 'satoshi')]
    m = getattr(w.obj, 'm', 1)
    if entry == 'create':
        tx = w.obj.create_transaction(outs, unspents=coins, fee=2, replace_by_fee=rbf, **kw)
    elif entry == 'default':
        assert not rbf
        tx = w.obj.create_transaction(outs, unspents=coins, fee=2, **kw)
    elif entry == 'prepare':
        tx = w.obj.sign_transaction(type(w.obj).prepare_transaction(w.addr, outs, unspents=coins, fee=2, replace_by_fee=rbf, **kw))
    elif entry == 'send':
        world.offered = []
        w.obj.send(outs, unspents=coins, fee=2, replace_by_fee=rbf, **kw)
        return world.offered[-1][2]
    return finish(ws[:m], tx, coins if coins is not None else w.obj.unspents) if m > 1 else tx


def fresh(spec):
    ws = wallet_set(spec)
    world = fakenet.World()
    env.reset(handler=fakenet.combined(fakenet.Money(), world))
    return ws, ws[0], world


def orig(coins):
    return [c.to_dict() for c in coins]


def units(tier):
    us = []
    for spec in WALLETS:
        for entry in ('create', 'prepare', 'send') if spec[0] == 'key' else ('create', 'prepare'):
            for rbf in (True, False):
                us.append({'t': 'mix', 'w': spec, 'entry': entry, 'rbf': rbf, 'n': 3 if spec[0] == 'key' else 2})
        us.append({'t': 'bits', 'w': spec})
        us.append({'t': 'draw', 'w': spec})
        us.append({'t': 'kind', 'w': spec})
        us.append({'t': 'many', 'w': spec})
    for spec in WALLETS[:1] + WALLETS[2:3]:
        us.append({'t': 'hist', 'w': spec, 'L': 4 if tier == 'quick' else 6})
    us.append({'t': 'own'})
    return us


def run_unit(ctx, u):
    T = u['t']
    if T == 'own':
        return own(ctx)
    spec = tuple(u['w'])
    ws, w, world = fresh(spec)
    kinds = w.kinds
    if T == 'mix':
        for n in range(1, u['n'] + 1):
            for seqs in itertools.product(SEQ, repeat=n):
                coins = [coin(w, kinds[(i + n) % len(kinds)], 30000 + i, i, index=i, sequence=s) for i, s in enumerate(seqs)]
                ctx.case((spec, u['entry'], u['rbf'], seqs))
                tx = build(ws, coins, u['rbf'], u['entry'], {}, world)
                expect(ctx, tx, coins, u['rbf'])
                ctx.outcome('n=%d rbf=%s' % (n, u['rbf']))
    elif T == 'bits':
        vals = sorted({v for b in range(33) for v in ((1 << b) - 1, 1 << b, (1 << b) + 1) if v <= 0xFFFFFFFF} | set(0xFFFFFFFF - i for i in range(40)))
        for v in vals:
            for k in kinds:
                for rbf in (True, False):
                    for entry in ('create', 'prepare'):
                        coins = [coin(w, k, 30000, 0, sequence=v)]
                        ctx.case((spec, 'bits', v, k, rbf, entry))
                        expect(ctx, build(ws, coins, rbf, entry, {}), coins, rbf)
                        ctx.outcome('bits')
    elif T == 'draw':
        for seqs in itertools.product((None, 7, 0xFFFFFFFE), repeat=3):
            coins = [coin(w, kinds[i % len(kinds)], 1500 + 200 * i, i, index=i, sequence=s) for i, s in enumerate(seqs)]
            for rbf in (True, False):
                def one(ch):
                    ctx.case((spec, 'draw', seqs, rbf, tuple(ch.prefix)))
                    try:
                        tx = build(ws, coins, rbf, 'create', {'combine': False})
                    except lib.InsufficientFunds:
                        ctx.outcome('insufficient')
                        return
                    expect(ctx, tx, coins, rbf)
                    ctx.outcome('draw')

                explore(one, max_dev=2, ctx=ctx)
    elif T == 'kind':
        # whatever else is known about a coin
        ks = kinds + (['l', 's'] if 'S' in kinds else ['l']) + (['?'] if 'S' in kinds else [])
        for n in (1, 2):
            for combo in itertools.product(itertools.product(ks, (0, 1, 6, 10**6), (None, 3, 0xFFFFFFFE)), repeat=n):
                if n == 2 and (combo[0][1] and combo[1][1]):
                    continue
                for rbf in (True, False):
                    coins = [coin(w, k, 30000, i, index=i, sequence=s, conf=c) for i, (k, c, s) in enumerate(combo)]
                    ctx.case((spec, 'kind', combo, rbf))
                    entry = ('create', 'prepare')[len(ctx.states) % 2]
                    if any(k in 'ls?' for k, _, _ in combo):
                        entry = 'create'
                    expect(ctx, build(ws, coins, rbf, entry, {}), coins, rbf)
                    ctx.outcome('kind')
    elif T == 'many':
        for n in (4, 5, 6, 8, 9, 10, 16, 17, 20, 21, 33, 50, 65, 101) if spec[0] == 'key' else (4, 8, 9, 17):
            for pos in sorted({0, 1, n // 2, n - 1}):
                for odd in (None, 9):
                    for rbf in (True, False):
                        for entry in ('create', 'prepare'):
                            coins = [coin(w, kinds[i % len(kinds)], 30000, i, index=i, sequence=odd if i == pos else SEQ[-2:][i % 2]) for i in range(n)]
                            ctx.case((spec, 'many', n, pos, odd, rbf, entry))
                            expect(ctx, build(ws, coins, rbf, entry, {}), coins, rbf)
                            ctx.outcome('many')
    elif T == 'hist':
        acts = [('create', True), ('create', False), ('default', False), ('prepare', True), ('prepare', False)] + ([('send', True)] if spec[0] == 'key' else [])
        for n in range(2, u['L'] + 1):
            for hist in itertools.product(acts if n < 4 else acts[:2] + acts[3:4], repeat=n):
                def run():
                    ws, w, world = fresh(spec)
                    coins = [coin(w, w.kinds[i % len(w.kinds)], 30000, i, index=i, sequence=s) for i, s in enumerate((None, 5, 0xFFFFFFFE))]
                    want = coins
                    for entry, rbf in hist:
                        tx = build(ws, coins, rbf, entry, {}, world)
                        expect(ctx, tx, want, rbf)
                    # a fresh coin is still final
                    c = [coin(w, 'L', 30000, 9)]
                    expect(ctx, build(ws, c, False, 'create', {}, world), c, False)
                    return True

                ctx.case((spec, hist), calls=n)
                isolated(run)
                ctx.outcome('history of %d' % n)


def own(ctx):
    """Coins from the wallet's own refresh, kept between transactions."""
    for spec in WALLETS:
        for hist in itertools.product((True, False), repeat=3):
            for reuse in (True, False):
                ws, w, world = fresh(spec)
                scripts = [w.script] + ([w.seg_script] if w.seg_script else [])
                for i, s in enumerate(scripts):
                    world.add(w.net, s, lib.coin_txid(w.name, i), i, 40000 + i)
                coins = w.obj.get_unspents()
                want = [lib.Unspent(**c.to_dict()) for c in coins]
                for c in want:
                    ctx.eq(c.sequence, 0xFFFFFFFF, 'default sequence of a fetched coin')
                for rbf in hist:
                    ctx.case((spec, 'own', hist, reuse))
                    tx = build(ws, w.obj.unspents if reuse else None, rbf, 'create', {})
                    expect(ctx, tx, want, rbf)
                    ctx.outcome('own')
