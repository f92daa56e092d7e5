"""C06: coin selection, called directly, over every amount configuration of a
boundary alphabet and every outcome of the randomness."""
import itertools
import math

from .. import env, harvest, lib, refbtc as ref
from ..explorer import explore
from bit.transaction import select_coins
from bit.network.meta import Unspent
from bit.exceptions import InsufficientFunds

LEVEL = 'model_checking'
BOUNDS = ('every assignment of boundary amounts and coin kinds to 1..3 coins with the full tree of random outcomes; 4..6 coins with <=2 (thorough 3) '
          'non-default outcomes; 7..1100 (thorough 3000) coins with the default, inverted and mixed outcomes; every output count 1..4 and at the '
          'compact-size boundary; absolute and per-byte fees 0..3; minimum change 0, 1, 546; 2..5 coins of equal amount that differ only in index or id')
ASSUMPTIONS = ['coins carry the size and kind the wallet assigns them (C24)']


def coin(kind, amount, n):
    w = W()
    c = w.coin('L' if kind in 'LU' else 'S', amount, n, index=n % 7)
    if kind == 'U':
        c.set_type('p2pkh-uncompressed', 0)
    return c


_w = []


def W():
    if not _w:
        _w.append(lib.key_wallet())
    return _w[0]


def varint(n):
    return len(ref.cs(n))


def est(coins, sizes, rate):
    """The size every selection has to pay for."""
    if not rate:
        return 0
    seg = any(c.segwit for c in coins)
    s = sum(c.vsize for c in coins) + varint(len(coins)) + sum(sizes) + varint(len(sizes)) + 8
    if seg:
        s += 0.5 + 0.25 * sum(not c.segwit for c in coins)
    return math.ceil(s) * rate


def judge(ctx, coins, target, fee, sizes, minc, absf, cons, res, err):
    whole = sum(c.amount for c in coins)
    whole_fee = fee if absf else est(coins, sizes, fee)
    if err is not None:
        ctx.check(whole - target - whole_fee < minc, 'insufficient funds reported although all coins together (%d) pay %d with a fee of %d and minimum change %d'
                  % (whole, target, whole_fee, minc))
        ctx.outcome('insufficient')
        return
    sel, rem = res
    ids = [(c.txid, c.txindex) for c in sel]
    given = {(c.txid, c.txindex): c for c in coins}
    ctx.check(sel, 'nothing selected')
    ctx.check(len(set(ids)) == len(ids), 'a coin was selected twice')
    for c in sel:
        ctx.check((c.txid, c.txindex) in given and given[(c.txid, c.txindex)].amount == c.amount, 'a coin was selected that was not given')
    if cons:
        ctx.eq(ids, [(c.txid, c.txindex) for c in coins], 'consolidation spends all coins in the given order')
    ctx.check(rem >= 0, 'negative remainder')
    paid = sum(c.amount for c in sel) - target - rem
    if absf:
        ctx.eq(paid, fee, 'fee')
        ctx.check(rem >= minc, 'change %d is less than the minimum %d' % (rem, minc))
        ctx.outcome('absolute')
        return
    full = est(sel, sizes, fee)
    if paid == full and rem >= minc:
        ctx.outcome('with change')
        return
    ctx.check(not cons, 'consolidation left %s with fee %s, expected fee %s and change >= %s' % (rem, paid, full, minc))
    ctx.check(rem == 0, 'fee %s and change %s: expected a fee of %s and change >= %s' % (paid, rem, full, minc))
    lo = est(sel, sizes[:-1], fee)
    ctx.check(paid >= lo, 'overspends: fee %s where %s is needed' % (paid, lo))
    # exact match: at most one ordinary input and output more than needed, and
    # the overhead is that of all coins on offer
    over = fee * (2.5 + varint(len(coins)) + 0.25 * len(coins))
    ctx.check(paid <= lo + fee * (148 + 34) + over, 'exact match overpays: fee %s where %s is needed' % (paid, lo))
    ctx.outcome('exact match')


def run(ctx, coins, target, fee, sizes, minc, absf, cons, desc, dev=None, limit=None):
    before = [c.to_dict() for c in coins]

    def one(ch):
        ctx.case((desc, tuple(ch.prefix)))
        given, sz = list(coins), list(sizes)
        res = err = None
        try:
            res = select_coins(target, fee, sz, minc, absolute_fee=absf, consolidate=cons, unspents=given)
        except InsufficientFunds as e:
            err = e
        judge(ctx, coins, target, fee, sizes, minc, absf, cons, res, err)
        ctx.check(all(a is b for a, b in zip(given, coins)) and len(given) == len(coins) and sz == list(sizes), "the caller's lists were modified")

    explore(one, max_dev=dev, limit=limit, ctx=ctx)
    ctx.eq([c.to_dict() for c in coins], before, "the caller's coins were modified")


def alphabet(target, fee, kinds, sizes):
    """Amounts at which the verdict can change for one or two coins."""
    v = {'L': 148, 'S': 92, 'U': 180}[kinds[0]]
    oh = (8 + sum(sizes[:-1]) + 1 + 1 + 1.25) * fee
    full = (8 + sum(sizes) + 1 + 1 + 0.5 + v) * fee
    a = {1, int(v * fee), int(v * fee) + 1, target // 2, int(target / 2 + v * fee + oh / 2) + 1, int(target + oh + v * fee), int(target + oh + v * fee) + 2,
         int(target + oh + v * fee) + 182 * fee, int(target + oh + v * fee) + 182 * fee + 3, int(target + full), int(target + full) + 1, 10 * target}
    return sorted(x for x in a if x > 0)


def units(tier):
    us = []
    for n in (1, 2, 3):
        for kinds in itertools.product('LSU' if n < 3 else 'LS', repeat=n):
            for fee in (0, 1, 3) if n < 3 else (1,):
                us.append({'t': 'tree', 'kinds': ''.join(kinds), 'fee': fee})
    for n in (4, 5, 6):
        for kinds in ('L' * n, 'S' * n, ('LS' * n)[:n]):
            us.append({'t': 'dev', 'kinds': kinds, 'dev': 2 if tier == 'quick' else 3})
    for k in 'LSU':
        us.append({'t': 'exact', 'k': k})
    for n in (10, 25, 252, 253, 999, 1100) + ((3000,) if tier != 'quick' else ()):
        us.append({'t': 'many', 'n': n})
    us.append({'t': 'nout'})
    us.append({'t': 'abs'})
    us.append({'t': 'cons'})
    us.append({'t': 'alike'})
    return us


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    target = 20000
    if T in ('tree', 'dev'):
        kinds = u['kinds']
        n = len(kinds)
        for sizes in ([34, 34],) if n > 2 else ([34, 34], [32, 43, 32]):
            for fee in (u['fee'],) if T == 'tree' else (1, 2):
                al = alphabet(target, fee, kinds, sizes)
                if n == 3 and ctx.tier == 'quick':
                    al = al[::2] + [al[-1]]
                if n > 3:
                    al = [al[1], al[len(al) // 2], al[-2], target // n + 200 * fee]
                for am in itertools.product(al, repeat=n) if n < 6 else itertools.combinations_with_replacement(al, n):
                    coins = [coin(k, a, i) for i, (k, a) in enumerate(zip(kinds, am))]
                    for minc in (0, 546) if n != 3 else (0,):
                        run(ctx, coins, target, fee, sizes, minc, False, False, (kinds, am, sizes, fee, minc), dev=None if T == 'tree' else (u['dev'] - (n - 4) if n < 6 else 1))
    elif T == 'exact':
        # the satoshi at which funds become (in)sufficient, for every coin kind
        k = u['k']
        for fee in (1, 2, 50):
            for sizes in ([34, 34], [34, 32, 34], [34] * 5):
                for n in (1, 2, 3):
                    for minc in (0, 1, 546):
                        for cons in (True, False):
                            coins = [coin(k, 30000, i) for i in range(n)]
                            f = est(coins, sizes, fee)
                            for e in (-2, -1, 0, 1, 2):
                                t = 30000 * n - f - minc + e
                                if t > 0:
                                    run(ctx, coins, t, fee, sizes, minc, False, cons, ('exact', k, fee, sizes, n, minc, cons, e))
                            # without change output
                            f = est(coins, sizes[:-1], fee)
                            for e in range(-2, 4):
                                t = 30000 * n - f - e
                                if t > 0 and not cons:
                                    run(ctx, coins, t, fee, sizes, minc, False, cons, ('exact nochange', k, fee, sizes, n, minc, e))
    elif T == 'many':
        n = u['n']
        for pat in 'L', 'LS':
            for am in 'same', 'rising':
                coins = [coin(pat[i % len(pat)], 1000 if am == 'same' else 300 + i, i) for i in range(n)]
                tot = sum(c.amount for c in coins)
                f = est(coins, [34, 34], 1)
                ts = (tot - f, tot - f + 1, tot + 1, tot // 3)
                for t in ts if n < 900 else ts[:2]:
                    for cons in (True, False):
                        if n >= 900 and not cons and (pat, am) != ('LS', 'rising'):
                            continue
                        if t > 0:
                            run(ctx, coins, t, 1, [34, 34], 0, False, cons, ('many', n, pat, am, t, cons), dev=0)
                            # every draw the other way round
                            if not cons and n < 900:
                                ctx.case(('many inverted', n, pat, am, t))
                                env.STATE.chooser = Inverted()
                                res = err = None
                                try:
                                    res = select_coins(t, 1, [34, 34], 0, unspents=list(coins))
                                except InsufficientFunds as e:
                                    err = e
                                judge(ctx, coins, t, 1, [34, 34], 0, False, False, res, err)
    elif T == 'nout':
        for no in list(range(1, 8)) + [251, 252, 253, 254]:
            for ks in ('L', 'S', 'LS'):
                coins = [coin(k, 10**6, i) for i, k in enumerate(ks)]
                sizes = [34] * (no + 1)
                for fee in (1, 4):
                    for cons in (True, False):
                        run(ctx, coins, 600 * no, fee, sizes, 0, False, cons, ('nout', no, ks, fee, cons))
    elif T == 'abs':
        for fee in (0, 1, 999, 10**5):
            for n in (1, 2, 3, 4):
                for am in itertools.product((1, 700, 20000, 20001, 150000), repeat=n):
                    coins = [coin('LS'[i % 2], a, i) for i, a in enumerate(am)]
                    for t in (1, 20000, sum(am) - fee, sum(am) - fee + 1):
                        if t <= 0:
                            continue
                        for minc in (0, 546):
                            for cons in (True, False):
                                run(ctx, coins, t, fee, [34, 34], minc, True, cons, ('abs', fee, am, t, minc, cons), dev=None if n < 4 else 1)
    elif T == 'alike':
        # coins that differ in as little as possible: one transaction, equal amounts, one index or one id apart
        w = W()
        for n in (2, 3, 4, 5):
            for ks in itertools.product('LS', repeat=n) if n < 5 else ['LSLSL', 'LLLLL']:
                for how in ('index', 'txid', 'far index', 'conf'):
                    coins = []
                    for i, k in enumerate(ks):
                        idx = {'index': i, 'txid': 0, 'far index': 256 * i, 'conf': i}[how]
                        tid = '%064x' % i if how == 'txid' else 'ab' * 32
                        coins.append(w.coin(k, 9000, 0, index=idx, txid=tid, conf=i if how == 'conf' else 6))
                    f = est(coins, [34, 34], 1)
                    for t in sorted({1000, 9000 * (n - 1), 9000 * n - f, 9000 * n - f + 1, 9000 * (n - 1) - 200}):
                        for cons in (True, False):
                            run(ctx, coins, t, 1, [34, 34], 0, False, cons, ('alike', ks, how, t, cons), dev=None if n < 3 else 2 if n < 5 else 1)
                            run(ctx, coins, t, 300, [34, 34], 0, True, cons, ('alike abs', ks, how, t, cons), dev=None if n < 4 else 1)
    elif T == 'cons':
        # every permutation of coins of every kind and size, dust included
        for n in (1, 2, 3, 4, 5):
            am = [5, 40000, 148, 92, 40000][:n]
            for perm in itertools.permutations(range(n)):
                for ks in itertools.product('LSU', repeat=n) if n < 5 else ['LSULS']:
                    coins = [coin(ks[i], am[i], i) for i in perm]
                    f = est(coins, [34, 34], 1)
                    for t in {1000, sum(am) - f, sum(am) - f + 1}:
                        if t > 0:
                            run(ctx, coins, t, 1, [34, 34], 0, False, True, ('cons', perm, ks, t))


class Inverted(env.Chooser):
    """Always the last alternative."""

    def choose(self, n, tag=None):
        self.trace.append((n - 1, n))
        return n - 1
