"""C02: multisig co-signing as a state machine: state = who has signed each
input, operation = (co-signer, coins given)."""
import itertools

from .. import env, lib, refbtc as ref, siglens
from ..build import unsigned_hex
from ..explorer import Violation

LEVEL = 'model_checking'
BOUNDS = ('every m-of-n with n<=3: all signer sequences (with repetition) up to length m+1 (thorough m+2) from every entry form (created, prepared, '
          'raw, node-style placeholders), per coin-kind mix; two inputs signed separately for all (signer, coin subset) sequences to depth 3 (4); '
          'all ordered quorums for n<=5; contracts of 2 to 4 keys that list a key more than once, every signer sequence; 9 to 30 inputs in every signer order, given at once or by halves; rotations and reversals up to the 520-byte limit; '
          'signatures of every DER length 68..71, alone and two short ones at once, in every signer order')
ASSUMPTIONS = ['libsecp256k1 signatures are deterministic (RFC 6979) and verify correctly']
CONTRACTS = [(m, n) for n in (1, 2, 3) for m in range(1, n + 1)]


def units(tier):
    us = []
    for m, n in CONTRACTS:
        for kinds in ('L', 'S', 'LS', 'SS', 'SLL'):
            for entry in ('create', 'prepare', 'raw', 'core'):
                us.append({'t': 'seq', 'm': m, 'n': n, 'kinds': kinds, 'entry': entry, 'depth': m + (1 if tier == 'quick' else 2), 'unc': -1,
                           'set': entry == 'raw', 'net': 'main' if (m + n) % 2 else 'test'})
        for unc in range(n):
            us.append({'t': 'seq', 'm': m, 'n': n, 'kinds': 'LL', 'entry': 'create', 'depth': m + 1, 'unc': unc, 'set': unc % 2 == 0, 'net': 'main'})
    for m, n in CONTRACTS:
        for kinds in ('LL', 'SS', 'LS', 'SL'):
            us.append({'t': 'subset', 'm': m, 'n': n, 'kinds': kinds, 'depth': 3 if tier == 'quick' else 4, 'net': 'test' if n == 3 else 'main'})
    for n in (4, 5):
        for m in range(1, n + 1):
            us.append({'t': 'perm', 'm': m, 'n': n, 'net': 'main' if m % 2 else 'test'})
    for m, n in ((2, 2), (2, 3), (3, 3)):
        for kinds in ('L' * 9, 'S' * 9, 'LS' * 6, 'SLL' * 10):
            us.append({'t': 'wide', 'm': m, 'n': n, 'kinds': kinds, 'net': 'main' if n == 2 else 'test'})
    for k in 'LS':
        us.append({'t': 'siglen', 'kind': k, 'm': 2, 'n': 3, 'net': 'test'})
    for n in (2, 3, 4):
        for own in itertools.product(range(n - 1), repeat=n):
            # owners numbered in the order of their first key, at least one of them twice
            if all(o <= max(own[:i], default=-1) + 1 for i, o in enumerate(own)):
                us += [{'t': 'weights', 'own': list(own), 'm': m, 'net': 'main' if m % 2 else 'test'} for m in range(1, n + 1)]
    for n in range(6, 16):
        us.append({'t': 'rot', 'n': n, 'net': 'main'})
    return us


def redeem_of(ws):
    return ref.multisig_script(ws[0].obj.public_keys, ws[0].obj.m)


def signers_in(tx, k, kind, amount, redeem):
    """Which of the contract's keys have a valid signature in input k, with
    multiplicity; every non-empty item must be a valid signature."""
    m, pubs = ref.parse_multisig(redeem)
    i = tx.ins[k]
    if kind == 'L':
        if i.witness:
            raise Violation('witness data on a legacy multisig input')
        items = ref.pushes(i.script)
        digest = ref.sighash_legacy(tx, k, redeem)
    else:
        if i.script and i.script != ref.push(b'\0\x20' + ref.sha(redeem)):
            raise Violation('script of a nested segwit multisig input is wrong')
        items = i.witness
        digest = ref.sighash_v0(tx, k, redeem, amount)
    if not items:
        return []
    if items[-1] != redeem:
        raise Violation('redeem script missing from a partially signed input')
    if items[0] != b'':
        raise Violation('multisig input does not start with an empty item')
    out = []
    for s in items[:-1]:
        if s == b'':
            continue
        who = [j for j, p in enumerate(pubs) if ref.verify(p, digest, s)]
        if len(who) != 1:
            raise Violation('partially signed input carries data that is no valid signature of a co-signer', item=s.hex())
        out.append(who[0])
    return out


def make(u):
    m, n = u['m'], u['n']
    comp = [i != u.get('unc', -1) for i in range(n)]
    ws = lib.multi_wallets(u['net'], m, lib.SECRETS[3:3 + n], comp, u.get('set', False))
    redeem = redeem_of(ws)
    m_, pubs = ref.parse_multisig(redeem)
    # wallet j -> position of its key in the script
    pos = [pubs.index(lib.pubkey(lib.SECRETS[3 + j], comp[j])) for j in range(n)]
    return ws, redeem, pos


def strip(t):
    """Everything signing must not change."""
    return (t.version, t.locktime, [(i.txid, i.index, i.sequence) for i in t.ins], [(o.amount, o.script) for o in t.outs])


class Machine:
    def __init__(self, ctx, ws, redeem, pos, coins, kinds, base):
        self.ctx, self.ws, self.redeem, self.pos, self.coins, self.kinds, self.base = ctx, ws, redeem, pos, coins, kinds, base
        self.finals = {}
        self.m = ws[0].obj.m

    def state(self, tx):
        try:
            t = ref.parse(tx)
            st = tuple(tuple(signers_in(t, k, kd, c.amount, self.redeem)) for k, (kd, c) in enumerate(zip(self.kinds, self.coins)))
        except ref.Invalid as e:
            raise Violation('partially signed transaction is malformed: %s' % e, tx=tx)
        for s in st:
            if len(set(s)) != len(s):
                raise Violation('a signature is duplicated', tx=tx)
            if list(s) != sorted(s):
                raise Violation('signatures are not in the order of the keys', tx=tx)
        if strip(t) != self.base:
            raise Violation('signing changed the transaction itself', tx=tx)
        return tuple(frozenset(s) for s in st), t

    def settle(self, st, tx):
        if all(len(s) == self.m for s in st):
            try:
                ref.check_tx(tx, lib.chain(self.coins))
            except ref.Invalid as e:
                raise Violation('quorum complete but the network would reject the transaction: %s' % e, tx=tx)
            if self.finals.setdefault(st, tx) != tx:
                raise Violation('result depends on the order of the co-signers', tx=tx, other=self.finals[st])
            self.ctx.outcome('complete')

    def sign(self, tx, st, j, given):
        """Model step, then implementation step, compare."""
        want = list(st)
        refused = any(len(st[k]) >= self.m for k in given)
        for k in given:
            want[k] = st[k] | {self.pos[j]}
        try:
            new = self.ws[j].obj.sign_transaction(tx, unspents=[self.coins[k] for k in given])
        except ValueError:
            if not refused:
                raise Violation('signing by a co-signer was refused before the quorum was complete', state=st)
            self.ctx.outcome('refused')
            return None, st
        if refused:
            # nothing may have been disturbed
            raise Violation('signing after the quorum is complete was not refused', state=st)
        got, _ = self.state(new)
        if got != tuple(want):
            raise Violation('signers after the call are %r, expected %r' % (got, want), tx=new)
        self.settle(got, new)
        self.ctx.outcome('partial')
        return new, got


def start(u, ws, coins, redeem, pos, first, kinds):
    """Transaction signed by the wallet ``first`` through the entry form."""
    w = ws[first]
    outs = [(lib.dests(u['net'])[0], 30000, 'satoshi'), (lib.dests(u['net'])[2], 20000, 'satoshi')]
    kw = dict(fee=777, absolute_fee=True, leftover=w.addr, unspents=list(coins))
    if u['entry'] == 'create':
        return w.obj.create_transaction(outs, **kw)
    if u['entry'] == 'prepare':
        return w.obj.sign_transaction(type(w.obj).prepare_transaction(w.addr, outs, **kw))
    raw = unsigned_hex(coins, [(a, b) for a, b, _ in outs])
    if u['entry'] == 'raw':
        return w.obj.sign_transaction(raw, unspents=list(coins))
    # a node's convention: m - 1 empty placeholders beside the first signature
    t = ref.parse(w.obj.sign_transaction(raw, unspents=list(coins)))
    for k, kd in enumerate(kinds):
        i = t.ins[k]
        items = i.witness if kd == 'S' else ref.pushes(i.script)
        sig = [s for s in items[:-1] if s]
        ph = [b''] * (w.obj.m - 1)
        for_all = [b''] + (sig + ph if first % 2 else ph + sig) + [redeem]
        if kd == 'S':
            i.witness = for_all
        else:
            i.script = b''.join(ref.push(x) for x in for_all)
    return t.full().hex()


def weights(ctx, u):
    """Contracts that list a key more than once: its owner counts as often."""
    own, m = u['own'], u['m']
    keys = [lib.SECRETS[3 + o] for o in own]
    owners = sorted(set(own))
    ws = [lib.multi_wallets(u['net'], m, keys)[own.index(o)] for o in owners]
    redeem = redeem_of(ws)
    weight = {o: own.count(o) for o in owners}
    for kinds in ('L', 'S', 'LS', 'SL'):
        coins = [ws[0].coin(k, 60000 + i, i, index=i) for i, k in enumerate(kinds)]
        outs = [(lib.dests(u['net'])[1], 50000, 'satoshi')]
        finals = {}
        for seq in itertools.product(owners, repeat=min(len(owners) + 1, m + 1)):
            for entry in ('raw', 'create'):
                ctx.case((own, m, kinds, entry, seq), calls=len(seq))
                signed, tx = set(), None
                if entry == 'raw':
                    tx = unsigned_hex(coins, [(a, b) for a, b, _ in outs])
                for o in seq:
                    w = ws[owners.index(o)]
                    full = sum(weight[x] for x in signed) >= m
                    if tx is None:
                        tx = w.obj.create_transaction(outs, fee=777, absolute_fee=True, leftover=w.addr, unspents=list(coins))
                        base = strip(ref.parse(tx))
                    else:
                        if not signed:
                            base = strip(ref.parse(tx, strict=False))
                        try:
                            new = w.obj.sign_transaction(tx, unspents=list(coins))
                        except ValueError:
                            ctx.check(full, 'signing was refused before the quorum was complete', own=own, m=m, signed=sorted(signed))
                            ctx.outcome('refused')
                            continue
                        ctx.check(not full, 'signing after the quorum is complete was not refused', own=own, m=m, signed=sorted(signed))
                        tx = new
                    signed.add(o)
                    have = sum(weight[x] for x in signed)
                    try:
                        t = ref.parse(tx)
                        ctx.eq(strip(t), base, 'the transaction itself')
                        for k, kd in enumerate(kinds):
                            i = t.ins[k]
                            items = i.witness if kd == 'S' else ref.pushes(i.script)
                            sigs = [s for s in items[1:-1] if s]
                            ctx.check(items[0] == b'' and items[-1] == redeem, 'a multisig input is not in its standard form', tx=tx)
                            ctx.eq(len(sigs), min(have, m), 'signatures in input %d' % k, own=own, m=m, tx=tx)
                            digest = ref.sighash_v0(t, k, redeem, coins[k].amount) if kd == 'S' else ref.sighash_legacy(t, k, redeem)
                            pubs = ref.parse_multisig(redeem)[1]
                            who = [next((own[j] for j, p in enumerate(pubs) if ref.verify(p, digest, s)), None) for s in sigs]
                            ctx.check(None not in who and (have > m or set(who) == signed), 'input %d carries the signatures of %r' % (k, who), signed=sorted(signed), tx=tx)
                    except ref.Invalid as e:
                        ctx.fail('partially signed transaction is malformed: %s' % e, tx=tx)
                    ctx.state((own, m, kinds, tuple(sorted(signed))))
                    if have >= m:
                        try:
                            ref.check_tx(tx, lib.chain(coins))
                        except ref.Invalid as e:
                            ctx.fail('quorum complete but the network would reject the transaction: %s' % e, own=own, m=m, tx=tx)
                        if entry == 'raw' and have == m:
                            ctx.eq(finals.setdefault(tuple(sorted(signed)), tx), tx, 'transaction of one quorum')
                        ctx.outcome('complete')
                    else:
                        ctx.outcome('partial')


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'seq':
        ws, redeem, pos = make(u)
        kinds = u['kinds']
        coins = [ws[0].coin(k, 60000 + i, i, index=i) for i, k in enumerate(kinds)]
        finals = {}
        for first in range(u['n']):
            ctx.case((u, 'first', first))
            tx0 = start(u, ws, coins, redeem, pos, first, kinds)
            t = ref.parse(tx0)
            M = Machine(ctx, ws, redeem, pos, coins, kinds, strip(t))
            st0, _ = M.state(tx0)
            ctx.eq(st0, tuple(frozenset([pos[first]]) for _ in kinds), 'signers after the first signature')
            M.settle(st0, tx0)
            for seq in itertools.product(range(u['n']), repeat=u['depth'] - 1):
                tx, st = tx0, st0
                ctx.case((u['m'], u['n'], kinds, u['entry'], u['unc'], first, seq), calls=len(seq))
                for j in seq:
                    new, st = M.sign(tx, st, j, range(len(kinds)))
                    tx = new or tx
                    ctx.state((u['m'], u['n'], kinds, st))
            if u['entry'] == 'raw':  # same unsigned transaction for all
                for k, v in M.finals.items():
                    ctx.eq(finals.setdefault(k, v), v, 'final transaction of one quorum')
    elif T == 'subset':
        ws, redeem, pos = make(u)
        kinds = u['kinds']
        coins = [ws[0].coin(k, 60000 + i, i, index=i) for i, k in enumerate(kinds)]
        raw = unsigned_hex(coins, [(lib.dests(u['net'])[1], 50000)])
        M = Machine(ctx, ws, redeem, pos, coins, kinds, strip(ref.parse(raw)))
        ops = [(j, g) for j in range(u['n']) for g in ((0,), (1,), (0, 1))]
        init = tuple(frozenset() for _ in kinds)

        def rec(tx, st, depth, path):
            if depth == 0:
                return
            for j, g in ops:
                ctx.case((u['m'], u['n'], kinds, path, j, g), key=(u['m'], u['n'], kinds, path, j, g))
                new, st2 = M.sign(tx, st, j, g)
                if new is not None:
                    rec(new, st2, depth - 1, path + ((j, g),))

        rec(raw, init, u['depth'], ())
    elif T == 'perm':
        ws, redeem, pos = make(u)
        for kinds in ('L', 'S'):
            coins = [ws[0].coin(kinds, 60000, 0, index=1)]
            raw = unsigned_hex(coins, [(lib.dests(u['net'])[1], 50000)])
            M = Machine(ctx, ws, redeem, pos, coins, kinds, strip(ref.parse(raw)))
            for seq in itertools.permutations(range(u['n']), u['m']):
                tx, st = raw, (frozenset(),)
                ctx.case((u['m'], u['n'], kinds, seq), calls=len(seq))
                for j in seq:
                    tx, st = M.sign(tx, st, j, (0,))
    elif T == 'siglen':
        ws, redeem, pos = make(u)
        kinds = u['kind']
        coins = [ws[0].coin(kinds, 10**8, 0, index=1)]
        for a in siglens.TABLE['ms', kinds]:
            for segwit in (False, True) if kinds == 'S' else (False,):
                raw = unsigned_hex(coins, [(lib.dests(u['net'])[1], a)], segwit_marker=segwit)
                M = Machine(ctx, ws, redeem, pos, coins, kinds, strip(ref.parse(raw, strict=False)))
                for seq in itertools.permutations(range(3), 3):
                    tx, st = raw, (frozenset(),)
                    ctx.case((kinds, a, segwit, seq), calls=3)
                    for j in seq:
                        new, st = M.sign(tx, st, j, (0,))
                        tx = new or tx
                    i = ref.parse(tx).ins[0]
                    items = i.witness if kinds == 'S' else ref.pushes(i.script)
                    ctx.outcome('signatures of %s bytes' % sorted(len(x) for x in items[1:-1]))
    elif T == 'wide':
        # many inputs, signed all at once and by halves, in every signer order
        ws, redeem, pos = make(u)
        kinds = u['kinds']
        coins = [ws[0].coin(k, 60000 + i, i, index=i) for i, k in enumerate(kinds)]
        raw = unsigned_hex(coins, [(lib.dests(u['net'])[1], 50000)])
        M = Machine(ctx, ws, redeem, pos, coins, kinds, strip(ref.parse(raw)))
        h = len(kinds) // 2
        whole, parts = [range(len(kinds))], [range(h, len(kinds)), range(h)]
        for seq in itertools.permutations(range(u['n']), u['m']):
            for split in itertools.product((whole, parts), repeat=u['m']):
                tx, st = raw, tuple(frozenset() for _ in kinds)
                ctx.case((u['m'], u['n'], kinds, seq, [len(x) for x in split]), calls=sum(len(x) for x in split))
                for j, gs in zip(seq, split):
                    for g in gs:
                        tx, st = M.sign(tx, st, j, g)
    elif T == 'weights':
        weights(ctx, u)
    elif T == 'rot':
        n = u['n']
        for m in range(1, n + 1):
            ws = lib.multi_wallets(u['net'], m, lib.SECRETS[:n])
            redeem = redeem_of(ws)
            for kinds in ('L', 'S'):
                coins = [ws[0].coin(kinds, 60000, 0, index=1)]
                raw = unsigned_hex(coins, [(lib.dests(u['net'])[1], 50000)])
                M = Machine(ctx, ws, redeem, list(range(n)), coins, kinds, strip(ref.parse(raw)))
                orders = [[(r + i) % n for i in range(m)] for r in range(0, n, 3)] + [list(range(n - 1, n - 1 - m, -1))]
                for seq in orders:
                    tx, st = raw, (frozenset(),)
                    ctx.case((m, n, kinds, seq), calls=m)
                    for j in seq:
                        tx, st = M.sign(tx, st, j, (0,))
