"""C32: every way of damaging a transaction's structure, against a reference
parser that says what is still well formed."""
from .. import env, lib, refbtc as ref
from ..build import unsigned_hex, wallet_set
from ..explorer import Violation
from bit.transaction import TxObj, calc_txid, deserialize

LEVEL = 'model_checking'
BOUNDS = ('15 base transactions (legacy, segwit, mixed, unsigned in both serialisations, partly signed multisig, 253 inputs, outputs or witness items, long and empty scripts); every truncation at every hex digit, every byte set to every value, '
          'every byte deleted, doubled, every insertion of 6 values at every place, every swap of neighbours, 1..12 bytes appended or put in front, 2^4..2^17 bytes (+-1, +-4) appended, two transactions joined, every count and length field set to '
          '40 values, every non-hexadecimal character of ASCII at every place; parsing and ids for all of them, signing by 6 wallets for all structural damage (thorough: for all)')
ASSUMPTIONS = ['over-long length fields, transactions without inputs or outputs, and witness markers without witness data are outside the property',
               'a missing leading zero digit of the hexadecimal text may be supplied by the parser']
TECHNIQUE = 'exhaustive enumeration of structural damage on the real code against an independent strict parser'


class Bad(Exception):
    pass


class Gray(Exception):
    """Not judged."""


def classify(b):
    """The transaction b is, or Bad, or Gray."""
    pos = [0]
    gray = [False]

    def get(n):
        if pos[0] + n > len(b):
            raise Bad
        x = b[pos[0]:pos[0] + n]
        pos[0] += n
        return x

    def cs():
        p = get(1)[0]
        if p < 253:
            return p
        k = 2 ** (p - 252)
        v = int.from_bytes(get(k), 'little')
        if len(ref.cs(v)) != k + 1:
            gray[0] = True
        return v

    get(4)
    seg = b[4:6] == b'\0\1'
    if seg:
        get(2)
    nin = cs()
    for _ in range(nin):
        get(36)
        get(cs())
        get(4)
    nout = cs()
    for _ in range(nout):
        get(8)
        get(cs())
    some = False
    if seg:
        for _ in range(nin):
            k = cs()
            some = some or k > 0
            for _ in range(k):
                get(cs())
    get(4)
    if pos[0] != len(b):
        raise Bad
    if gray[0] or not nin or not nout or (seg and not some):
        raise Gray
    return b


def raises(f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception:
        return None
    return (r,)


def judge(ctx, form, signers=(), what=''):
    """form: bytes or text."""
    b = form
    if isinstance(form, str):
        t = form
        try:
            if not all(c in '0123456789abcdefABCDEF' for c in t):
                raise Bad
            if len(t) & 1:
                classify(bytes.fromhex('0' + t))
                raise Gray
            b = bytes.fromhex(t)
            classify(b)
            kind = 'ok'
        except Bad:
            kind = 'bad'
        except Gray:
            kind = 'gray'
    else:
        try:
            classify(b)
            kind = 'ok'
        except Bad:
            kind = 'bad'
        except Gray:
            kind = 'gray'
    ctx.case((what, form if len(form) < 300 else ref.sha(form.encode() if isinstance(form, str) else form).hex()))
    got = raises(deserialize, form)
    if kind == 'gray':
        ctx.outcome('not judged')
        return kind
    if kind == 'ok':
        ctx.check(got is not None, 'a well-formed transaction is refused (%s)' % what)
        ctx.eq(bytes(got[0]), b, 'a well-formed transaction comes back changed (%s)' % what)
        ctx.outcome('well formed')
        return kind
    ctx.check(got is None, 'a malformed transaction is accepted by the parser (%s)' % what, form=form)
    ctx.check(raises(calc_txid, form) is None, 'a malformed transaction gets an id (%s)' % what, form=form)
    if isinstance(form, str):
        for w, coins in signers:
            ctx.step()
            r = raises(w.obj.sign_transaction, form, unspents=coins)
            ctx.check(r is None, 'a malformed transaction is signed by %s (%s)' % (w.name, what), form=form, result=r)
    ctx.outcome('refused')
    return kind


_cache = {}


def bases():
    """name -> (bytes, [(wallet, coins)])"""
    if _cache:
        return _cache
    k = lib.key_wallet('main')
    t = lib.key_wallet('test', False)
    ms = wallet_set(('ms', 'main', 2, 3, -1, False))
    d = lib.dests('main')[0]
    out = [(d, 9000, 'satoshi')]

    def add(name, hx, signers):
        _cache[name] = (bytes.fromhex(hx), signers)

    for name, kinds in (('legacy', 'L'), ('segwit', 'S'), ('mixed', 'LS'), ('mixed2', 'SL')):
        coins = [k.coin(x, 30000, i) for i, x in enumerate(kinds)]
        u = unsigned_hex(coins, [(d, 9000), (lib.dests('main')[3], 500)])
        add(name + ' unsigned', u, [(k, coins)])
        if name in ('legacy', 'mixed', 'segwit'):
            add(name + ' signed', k.obj.create_transaction(out, fee=500, absolute_fee=True, unspents=coins), [(k, coins)])
    coins = [t.coin('L', 30000, 0)]
    add('uncompressed', unsigned_hex(coins, [(lib.dests('test')[0], 9000)]), [(t, coins)])
    for kinds in ('L', 'S'):
        coins = [ms[0].coin(x, 30000, i) for i, x in enumerate(kinds)]
        add('multisig %s' % kinds, ms[0].obj.create_transaction(out, fee=500, absolute_fee=True, unspents=coins), [(ms[1], coins), (ms[2], coins)])
    coins = [k.coin('L', 10**9, 0)]
    add('many outputs', ref.mktx([(coins[0].txid, coins[0].txindex, b'', 0xFFFFFFFF, [])], [(1000 + i, b'\x6a' + bytes([1, i & 255])) for i in range(253)]).full().hex(), [(k, coins)])
    add('empty scripts', ref.mktx([('11' * 32, 0, b'', 0, []), ('22' * 32, 1, b'', 1, [])], [(0, b''), (1, b'')]).full().hex(), [])
    coins = [k.coin('LS'[i % 2], 1000 + i, i) for i in range(253)]
    add('many inputs', unsigned_hex(coins, [(d, 9000)]), [(k, coins)])
    add('many witnesses', ref.mktx([('33' * 32, i, b'', 5, [bytes([i])] if i % 5 else []) for i in range(254)], [(7, b'\x51')]).full().hex(), [])
    add('long parts', ref.mktx([('11' * 32, 0, b'\x4c' * 253, 0, [b'w' * 256] + [bytes([i % 7]) * (i % 3) for i in range(253)])], [(3, b'\x6a' * 300), (4, b'\x51' * 252)]).full().hex(), [])
    return _cache


def fields(b):
    """(offset, size) of every count and length field."""
    out = []
    pos = [0]

    def cs():
        p = b[pos[0]]
        n = 1 if p < 253 else 1 + 2 ** (p - 252)
        out.append((pos[0], n))
        v = p if p < 253 else int.from_bytes(b[pos[0] + 1:pos[0] + n], 'little')
        pos[0] += n
        return v

    def skip(n):
        pos[0] += n

    skip(4)
    seg = b[4:6] == b'\0\1'
    if seg:
        skip(2)
    nin = cs()
    for _ in range(nin):
        skip(36)
        skip(cs())
        skip(4)
    for _ in range(cs()):
        skip(8)
        skip(cs())
    if seg:
        for _ in range(nin):
            for _ in range(cs()):
                skip(cs())
    return out


NAMES = ['legacy unsigned', 'legacy signed', 'segwit unsigned', 'segwit signed', 'mixed unsigned', 'mixed signed', 'mixed2 unsigned', 'uncompressed', 'multisig L', 'multisig S', 'many outputs', 'empty scripts', 'many inputs', 'many witnesses', 'long parts']


def units(tier):
    us = []
    for n in NAMES:
        for t in ('cut', 'move', 'fields', 'chars'):
            us.append({'t': t, 'b': n, 'all': tier != 'quick'})
        us += [{'t': 'bytes', 'b': n, 'part': p, 'all': tier != 'quick'} for p in range(4 if n != 'many outputs' else 8)]
    us.append({'t': 'prepared'})
    return us


def run_unit(ctx, u):
    env.reset()
    if u['t'] == 'prepared':
        return prepared(ctx)
    b, signers = bases()[u['b']]
    if len(b) > 5000 and u['t'] != 'fields':
        signers = ()  # parsing decides; the field damage is also offered for signing
    {'cut': cut, 'move': move, 'fields': set_fields, 'chars': chars, 'bytes': values}[u['t']](ctx, u, b, signers)


def cut(ctx, u, b, signers):
    t = b.hex()
    step = 1 if len(t) < 3000 else 7 if len(t) < 10000 else 61
    for n in sorted(set(range(0, len(t), step)) | set(range(max(0, len(t) - 40), len(t)))):
        judge(ctx, t[:n], signers, 'cut to %d digits' % n)
        if not n & 1:
            judge(ctx, b[:n // 2], (), 'cut to %d bytes' % (n // 2))
        judge(ctx, t[n:] if n else t, signers if n else (), '%d digits missing in front' % n)
    for x in (b'\0', b'\1', b'\xff', b'\xfd'):
        for n in range(1, 13):
            judge(ctx, (b + x * n).hex(), signers, '%d bytes appended' % n)
            judge(ctx, b + x * n, (), '%d bytes appended' % n)
            judge(ctx, (x * n + b).hex(), signers, '%d bytes in front' % n)
    for n in sorted({m + d for m in [1 << k for k in range(4, 18)] + [252, 253] for d in (-4, -1, 0, 1, 4)}):
        for x in (b'\0', b'\xff'):
            judge(ctx, b + x * n, (), '%d bytes appended' % n)
        judge(ctx, (b + b'\0' * n).hex(), signers if n < 300 else (), '%d bytes appended' % n)
    for x, _ in bases().values():
        judge(ctx, (b + x).hex(), signers, 'two transactions')
        judge(ctx, b + x, (), 'two transactions')
    judge(ctx, b.hex(), (), 'unchanged')
    judge(ctx, b.hex().upper(), (), 'unchanged')


def move(ctx, u, b, signers):
    step = 1 if len(b) < 1500 else 5 if len(b) < 5000 else 47
    for i in range(0, len(b), step):
        judge(ctx, (b[:i] + b[i + 1:]).hex(), signers, 'byte %d deleted' % i)
        judge(ctx, (b[:i] + b[i:i + 1] + b[i:]).hex(), signers, 'byte %d doubled' % i)
        if i + 1 < len(b):
            judge(ctx, (b[:i] + b[i + 1:i + 2] + b[i:i + 1] + b[i + 2:]).hex(), signers if u['all'] else (), 'bytes %d swapped' % i)
        for x in (0, 1, 0x80, 0xFD, 0xFE, 0xFF):
            judge(ctx, (b[:i] + bytes([x]) + b[i:]).hex(), signers if u['all'] else (), 'byte inserted at %d' % i)


def set_fields(ctx, u, b, signers):
    fs = fields(b)
    if len(fs) > 60:
        fs = fs[:12] + fs[-12:]
    for off, n in fs:
        for v in list(range(0, 12)) + [25, 33, 34, 35, 75, 76, 107, 127, 128, 252, 253, 254, 255, 256, 300, 1000, 65535, 65536, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1]:
            judge(ctx, (b[:off] + ref.cs(v) + b[off + n:]).hex(), signers, 'field at %d is %d' % (off, v))
        for raw in (b'\xfd', b'\xfe', b'\xff', b'\xfd\1', b'\xfe\1\1', b'\xff\1\1\1'):
            judge(ctx, (b[:off] + raw).hex(), signers, 'field at %d broken off' % off)


def chars(ctx, u, b, signers):
    t = b.hex()
    pos = range(len(t)) if len(t) < 600 else sorted(set(range(40)) | set(range(len(t) - 40, len(t))) | set(range(0, len(t), 17 if len(t) < 10000 else 997)))
    for i in pos:
        for c in 'gGxzZ \n\t-_.,:;/+%#"\'\\\0Oo\u0661\u0430':
            judge(ctx, t[:i] + c + t[i + 1:], signers if i % 40 == 0 or u['all'] else (), 'character %r at %d' % (c, i))
    for c in [chr(x) for x in range(128) if chr(x) not in '0123456789abcdefABCDEF'] + ['\u0661', '\xe9', '\u0430']:
        for x in (c + t, t + c, t[:8] + c + t[8:], t[:9] + c + t[9:], c + c + t, t + c + c):
            judge(ctx, x, signers, 'extra character %r' % c)
    for x in ('0x' + t, '0X' + t, ' ' + t, t + '\n', '"' + t + '"', t.encode().hex(), ''):
        judge(ctx, x, signers, 'wrapped')


def values(ctx, u, b, signers):
    parts = 4 if u['b'] != 'many outputs' else 8
    fs = fields(b)
    if len(fs) > 60:
        fs = fs[:8] + fs[-6:]
    st = {x for off, n in fs for x in range(off, off + n)} | {4, 5}
    for i in range(u['part'], len(b), parts):
        if len(b) > 1500 and i not in st and i % (97 if len(b) < 5000 else 997):
            continue
        for x in range(256):
            if x != b[i]:
                judge(ctx, (b[:i] + bytes([x]) + b[i + 1:]).hex(), signers if i in st or u['all'] else (), 'byte %d is %d' % (i, x))


def prepared(ctx):
    """Prepared data cut short is never signed."""
    k = lib.key_wallet('main')
    ms = wallet_set(('ms', 'main', 2, 2, -1, False))
    for w in (k, ms[0]):
        for kinds in ('L', 'S', 'LS'):
            coins = [w.coin(x, 30000, i) for i, x in enumerate(kinds)]
            p = type(w.obj).prepare_transaction(w.obj.address, [(lib.dests('main')[0], 9000, 'satoshi')], fee=500, absolute_fee=True, unspents=coins, message='hello')
            for n in range(len(p)):
                for x in (p[:n], p[n + 1:] if n else None, p + p[:n + 1], p[:n] + '\0' + p[n:] if n % 9 == 0 else None):
                    if x is None:
                        continue
                    ctx.case(('prepared', w.name, kinds, n, len(x)))
                    ctx.check(raises(w.obj.sign_transaction, x) is None, 'damaged prepared data is signed', data=x)
            ctx.check(raises(w.obj.sign_transaction, p) is not None, 'prepared data is refused')
    ctx.outcome('prepared data')
