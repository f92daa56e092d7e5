"""C01: every fully signed transaction is valid (reference interpreter)."""
import itertools

from .. import env, harvest, lib, refbtc as ref, siglens
from ..build import KEYS, sign_all, unsigned_hex, valid, wallet_set

LEVEL = 'model_checking'
BOUNDS = ('all input-kind sequences up to length 6 (thorough 8) per wallet kind and entry point; every input count 1..258 and 300 and output '
          'count 1..258; coins without type information in every mix up to 3 (4); every m-of-n up to the script limit; boundary alphabets for amounts, indices, sequences (format boundaries and '
          'every constant of the source +-1); 24 secrets x 200 (1500) signature messages and signatures of every DER length 68..71; '
          'coins of one transaction at index pairs of a 30-value alphabet; every single-field variation of a 4-input transaction built before and after it')
ASSUMPTIONS = ['libsecp256k1 verification is correct', 'only the script templates the library can produce are interpreted']
MS = [('ms', 'main', 1, 1, -1, False), ('ms', 'test', 1, 2, -1, False), ('ms', 'main', 2, 2, -1, True), ('ms', 'test', 2, 3, -1, False),
      ('ms', 'main', 2, 3, 1, False), ('ms', 'main', 3, 3, -1, False), ('ms', 'test', 2, 2, 0, True), ('ms', 'test', 1, 3, 2, False)]
FILES = ['bit/transaction.py', 'bit/utils.py', 'bit/wallet.py', 'bit/format.py', 'bit/network/meta.py', 'bit/constants.py']


def units(tier):
    us = []
    L = 6 if tier == 'quick' else 8
    for w in KEYS + MS:
        for e in ('create', 'prepare', 'raw'):
            us.append({'t': 'mix', 'w': w, 'e': e, 'L': L if w[0] == 'key' else L - 2})
    step = 16
    us.append({'t': 'nin', 'lo': 257, 'hi': 259})
    us.append({'t': 'nin', 'lo': 300, 'hi': 301})
    for lo in range(1, 257, step):
        us.append({'t': 'nin', 'lo': lo, 'hi': min(lo + step, 257)})
    if tier == 'thorough':
        us.append({'t': 'nin', 'lo': 257, 'hi': 330})
        us.append({'t': 'ninbig', 'n': [600, 1000]})
        us.append({'t': 'noutbig', 'n': [65534, 65535, 65536]})
    for lo in range(1, 259, 52):
        us.append({'t': 'nout', 'lo': lo, 'hi': min(lo + 52, 259)})
    for w in KEYS + MS[2:5]:
        us.append({'t': 'amount', 'w': w})
        us.append({'t': 'fields', 'w': w})
    for i in range(0, 24, 4):
        us.append({'t': 'sigs', 's': list(range(i, i + 4)), 'n': 200 if tier == 'quick' else 1500})
    for n in range(1, 16):
        us.append({'t': 'mn', 'n': n, 'unc': False})
    for n in range(1, 8):
        us.append({'t': 'mn', 'n': n, 'unc': True})
    for net in ('main', 'test'):
        us.append({'t': 'dest', 'net': net})
    us.append({'t': 'msg'})
    us.append({'t': 'siglen'})
    for w in KEYS + [MS[2], MS[3]]:
        us.append({'t': 'sametx', 'w': w})
        for e in ('create', 'raw'):
            us.append({'t': 'twin', 'w': w, 'e': e})
    for w in KEYS[::2] + MS[:4]:
        for e in ('create', 'prepare', 'raw'):
            us.append({'t': 'typeless', 'w': w, 'e': e, 'L': 3 if tier == 'quick' else 4})
    return us


def go(ctx, ws, coins, outs, desc, entry='create', **kw):
    env.reset()
    kw.setdefault('fee', 1000)
    kw.setdefault('absolute_fee', True)
    ctx.case(desc, calls=max(1, getattr(ws[0].obj, 'm', 1)))
    tx = sign_all(ws, coins, outs, entry, **kw)
    t = valid(tx, coins, 'signed transaction')
    ctx.outcome('valid %s' % ('segwit' if t.segwit else 'legacy'))
    ctx.check(t.version in (1, 2) and t.locktime == 0, 'non-final or non-standard transaction')
    ctx.eq(len(t.ins), len(coins), 'all coins are spent when consolidating')
    return t


def variations(w, pat):
    d = lib.dests(w.net)
    out = []

    def coin(i, **kw):
        def f(x):
            x['coins'][i].update(kw)
        out.append(('coin %d %s' % (i, kw), f))

    def outp(i, j, v):
        def f(x):
            x['outs'][i][j] = v
        out.append(('output %d %s' % (i, v), f))

    def kw(**k):
        def f(x):
            x['kw'].update(k)
        out.append((str(k), f))

    def swap(what, i, j):
        def f(x):
            x[what][i], x[what][j] = x[what][j], x[what][i]
        out.append(('swap %s %d %d' % (what, i, j), f))

    for i in range(len(pat)):
        coin(i, sequence=5)
        coin(i, sequence=0xFFFFFFFE)
        coin(i, index=77)
        coin(i, n=50 + i)
        coin(i, amount=50001 + 1000 * i)
        if len(w.kinds) > 1:
            coin(i, kind='L' if pat[i] == 'S' else 'S')
    for i in range(3):
        outp(i, 1, 7777)
        outp(i, 0, d[5])
    for i, j in itertools.combinations(range(len(pat)), 2):
        swap('coins', i, j)
    for i, j in itertools.combinations(range(3), 2):
        swap('outs', i, j)
    kw(fee=1001)
    kw(leftover=d[3])
    return out


def run_unit(ctx, u):
    T = u['t']
    if T == 'mix':
        ws = wallet_set(u['w'])
        d = lib.dests(ws[0].net)
        for n in range(1, u['L'] + 1):
            for kinds in itertools.product(ws[0].kinds, repeat=n):
                coins = [ws[0].coin(k, 50000 + 1000 * i, i, index=i) for i, k in enumerate(kinds)]
                for nout in (1, 2, 3):
                    go(ctx, ws, coins, [(d[(i + n) % len(d)], 6000 + i, 'satoshi') for i in range(nout)], (u['w'], u['e'], ''.join(kinds), nout), u['e'])
    elif T == 'typeless':
        # coins as a lookup by address reports them: without a type
        ws = wallet_set(u['w'])
        d = lib.dests(ws[0].net)
        for n in range(1, u['L'] + 1):
            for kinds in itertools.product('LSls?', repeat=n):
                if not set(kinds) & set('ls?'):
                    continue
                coins = [ws[0].coin(k, 50000 + 1000 * i, i, index=i) for i, k in enumerate(kinds)]
                go(ctx, ws, coins, [(d[n % len(d)], 6000, 'satoshi')], (u['w'], u['e'], ''.join(kinds), 'typeless'), u['e'])
    elif T == 'nin':
        w = wallet_set(KEYS[0])
        d = lib.dests('main')
        for n in range(u['lo'], u['hi']):
            for pat in ('S', 'L', 'LS'):
                coins = [w[0].coin(pat[i % len(pat)], 1000 + i, i, index=i) for i in range(n)]
                go(ctx, w, coins, [(d[0], 600, 'satoshi')], ('nin', n, pat), fee=1 if n == 1 else 300)
    elif T == 'ninbig':
        w = wallet_set(KEYS[0])
        for n in u['n']:
            coins = [w[0].coin('S', 1000 + i, i, index=i) for i in range(n)]
            go(ctx, w, coins, [(lib.dests('main')[0], 600, 'satoshi')], ('nin', n, 'S'))
    elif T in ('nout', 'noutbig'):
        w = wallet_set(KEYS[0])
        d = lib.dests('main')
        for n in (range(u['lo'], u['hi']) if T == 'nout' else u['n']):
            for k in 'LS':
                coins = [w[0].coin(k, 10**9 + n * n, 0), w[0].coin('L', 7 * 10**5, 1)]
                go(ctx, w, coins, [(d[i % len(d)], 546 + i, 'satoshi') for i in range(n)], ('nout', n, k))
    elif T == 'amount':
        ws = wallet_set(u['w'])
        d = lib.dests(ws[0].net)
        am = harvest.amounts(1, harvest.MAXM, FILES)
        for k in ws[0].kinds:
            for a in am:
                # a as coin value, then a as payment
                if a >= 3:
                    go(ctx, ws, [ws[0].coin(k, a, 0)], [(d[0], 1, 'satoshi')], ('coin amount', u['w'], k, a), fee=1)
                go(ctx, ws, [ws[0].coin(k, harvest.MAXM, 0)], [(d[1], min(a, harvest.MAXM - 1000), 'satoshi')], ('pay amount', u['w'], k, a))
    elif T == 'fields':
        ws = wallet_set(u['w'])
        d = lib.dests(ws[0].net)
        idx = sorted(set(harvest.near(0, 2**32 - 1, FILES)) | set(harvest.pow2(0, 2**32 - 1, range(33))))
        for k in ws[0].kinds:
            for v in idx:
                go(ctx, ws, [ws[0].coin(k, 50000, 0, index=v), ws[0].coin('L', 60000, 1, index=v)], [(d[0], 7000, 'satoshi')], ('index', u['w'], k, v))
                go(ctx, ws, [ws[0].coin(k, 50000, 0, sequence=v), ws[0].coin('L', 60000, 1)], [(d[0], 7000, 'satoshi')], ('sequence', u['w'], k, v))
            for tx in ('00' * 32, 'ff' * 32, '00' * 31 + '01', '01' + '00' * 31, '0f' * 32, 'ab' * 16 + '00' * 16):
                go(ctx, ws, [ws[0].coin(k, 50000, 0, txid=tx), ws[0].coin('L', 60000, 1, txid=tx, index=1)], [(d[0], 7000, 'satoshi')], ('txid', u['w'], k, tx))
                go(ctx, ws, [ws[0].coin(k, 50000, 0, txid=tx), ws[0].coin(k, 60000, 1, txid=tx, index=1)], [(d[0], 7000, 'satoshi')], ('txid2', u['w'], k, tx), replace_by_fee=True)
    elif T == 'sametx':
        # several outputs of one transaction
        ws = wallet_set(u['w'])
        d = lib.dests(ws[0].net)
        idx = sorted(set(x for b in (0, 8, 16, 24, 31) for x in (2**b - 1, 2**b, 2**b + 1)) | {2, 253, 258, 512, 2**32 - 1, 0x01010101, 0x00010001})
        for i, a in enumerate(idx):
            for b in idx[i + 1:]:
                for kk in ('LL',) + (('SS', 'LS') if len(ws[0].kinds) > 1 else ()):
                    coins = [ws[0].coin(kk[0], 50000, 0, index=a), ws[0].coin(kk[1], 50000, 0, index=b)]
                    go(ctx, ws, coins, [(d[0], 7000, 'satoshi')], ('sametx', u['w'], a, b, kk))
    elif T == 'twin':
        # a transaction, a variation of it in one field, and itself again
        ws = wallet_set(u['w'])
        for pat in ('LLLL',) + (('SSSS', 'LSLS', 'SLLS') if len(ws[0].kinds) > 1 else ()):
            for name, f in [('same', lambda x: None)] + variations(ws[0], pat):
                def spec():
                    return dict(coins=[dict(kind=k, amount=50000 + 1000 * i, n=i, index=i, sequence=None) for i, k in enumerate(pat)],
                                outs=[[lib.dests(ws[0].net)[i], 6000 + i, 'satoshi'] for i in range(3)], kw={})
                base, var = spec(), spec()
                f(var)
                for n, x in enumerate((base, var, base)):
                    coins = [ws[0].coin(**c) for c in x['coins']]
                    go(ctx, ws, coins, [tuple(o) for o in x['outs']], ('twin', u['w'], u['e'], pat, name, n), u['e'], **x['kw'])
    elif T == 'siglen':
        for c, amounts in sorted(siglens.TABLE.items(), key=str):
            if c[0] == 'ms':
                continue
            w = lib.key_wallet(c[1], c[2], lib.SECRETS[c[3]])
            coin = w.coin(c[4], 10**8, 0, index=1)
            for a in amounts:
                for segwit in (False, True) if c[4] == 'S' else (False,):
                    ctx.case((c, a, segwit))
                    tx = w.obj.sign_transaction(unsigned_hex([coin], [(lib.dests(c[1])[1], a)], segwit_marker=segwit), unspents=[coin])
                    t = valid(tx, [coin], 'signed transaction')
                    ctx.outcome('signature of %d bytes' % len(t.ins[0].witness[0] if c[4] == 'S' else ref.pushes(t.ins[0].script)[0]))
    elif T == 'sigs':
        for si in u['s']:
            for comp in (True, False):
                w = wallet_set(('key', 'main', comp, si))
                for i in range(u['n']):
                    coins = [w[0].coin(k, 10**6, j) for j, k in enumerate(w[0].kinds)]
                    t = go(ctx, w, coins, [(lib.dests('main')[0], 10000 + i, 'satoshi')], ('sig', si, comp, i))
                    ctx.outcome('sig bytes %d' % len(t.ins[0].script))
    elif T == 'mn':
        n = u['n']
        for m in range(1, n + 1):
            ws = lib.multi_wallets('main' if n % 2 else 'test', m, lib.SECRETS[:n], [not u['unc']] * n)
            order = ws[n - m:]  # the last m co-signers
            for k in ws[0].kinds:
                coins = [ws[0].coin(k, 10**6, 0), ws[0].coin(k, 10**6, 1, index=300)]
                go(ctx, order, coins, [(lib.dests(ws[0].net)[0], 10000, 'satoshi')], ('mn', m, n, k, u['unc']))
    elif T == 'dest':
        ws = wallet_set(('key', u['net'], True, 0))
        d = lib.dests(u['net'])
        for a in d:
            for b in d:
                for k in 'LS':
                    go(ctx, ws, [ws[0].coin(k, 10**6, 0)], [(a, 1000, 'satoshi'), (b, 2000, 'satoshi')], ('dest', a, b, k), leftover=a)
    elif T == 'msg':
        for spec in KEYS[:2] + [MS[3]]:
            ws = wallet_set(spec)
            for k in ws[0].kinds:
                for n in list(range(0, 165)) + [239, 240, 241, 252, 253, 300]:
                    t = go(ctx, ws, [ws[0].coin(k, 10**6, 0)], [(lib.dests(ws[0].net)[0], 1000, 'satoshi')], ('msg', spec, k, n), message='m' * n)
                    for o in t.outs:
                        if o.script[:1] == b'\x6a':
                            ref.data_push(o.script)
