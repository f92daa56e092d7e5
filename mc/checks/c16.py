"""C16: messages of every length and content through both entry points."""
import itertools
import json

from .. import env, harvest, lib, refbtc as ref
from ..build import KEYS, finish, wallet_set
from ..explorer import explore

LEVEL = 'model_checking'
BOUNDS = ('every length 0..700 (thorough 0..2600) as text and as raw bytes, through create and prepare+sign; 1- to 4-byte characters starting at every offset 0..165; every single byte value, also at every first, last and chunk-boundary place; every Unicode character of planes 0-2 and 14 (thorough: all), all pairs of 40 and triples of 18 characters; 16 '
          'awkward contents (hex-looking, address-looking, JSON, NUL, opcodes); every wallet kind x payments 0..3 x change or not; random selection with <=2 non-default outcomes')
ASSUMPTIONS = []
WALLETS = KEYS + [('ms', 'main', 2, 3, -1, False), ('ms', 'test', 1, 2, -1, True)]


def units(tier):
    top = 700 if tier == 'quick' else 2600
    us = [{'t': 'len', 'lo': lo, 'hi': min(lo + 50, top + 1)} for lo in range(0, top + 1, 50)]
    us += [{'t': 'utf', 'k': k} for k in (1, 2, 3, 4)]
    us += [{'t': 'bytes'}, {'t': 'content'}, {'t': 'draw'}, {'t': 'places'}, {'t': 'pairs'}, {'t': 'surrogates'}]
    us += [{'t': 'unicode', 'lo': lo, 'hi': lo + 0x4000} for lo in list(range(0, 0x34000, 0x4000)) + list(range(0xE0000, 0xE4000, 0x4000)) + ([0xF0000, 0x10C000] if tier == 'quick' else list(range(0x34000, 0xE0000, 0x4000)) + list(range(0xE4000, 0x110000, 0x4000)))]
    us += [{'t': 'wallet', 'w': w} for w in WALLETS]
    return us


def build(ws, coins, outs, entry, msg, raw, kw):
    w = ws[0]
    m = getattr(w.obj, 'm', 1)
    if raw:
        kw = dict(kw, message_is_hex=True)
    if msg is not None:
        kw = dict(kw, message=msg)
    if entry == 'create':
        tx = w.obj.create_transaction(list(outs), unspents=list(coins), **kw)
    else:
        data = type(w.obj).prepare_transaction(w.seg_addr if any(c.segwit for c in coins) else w.addr, list(outs), unspents=list(coins), **kw)
        if entry == 'transport':
            data = json.dumps(json.loads(data), indent=1)
        tx = w.obj.sign_transaction(data)
    return finish(ws[:m], tx, coins) if m > 1 else tx


def judge(ctx, ws, coins, outs, entry, msg, raw, kw, desc):
    ctx.case(desc)
    tx = build(ws, coins, outs, entry, msg, raw, kw)
    want = b'' if msg is None else bytes(msg) if raw else msg.encode('utf-8')
    t = ref.parse(tx)
    data = [i for i, o in enumerate(t.outs) if o.script[:1] == b'\x6a']
    n = len(t.outs) - len(data)
    ctx.eq(data, list(range(n, len(t.outs))), 'positions of the data outputs: after everything else', tx=tx)
    got = b''
    for i in data:
        o = t.outs[i]
        ctx.eq(o.amount, 0, 'value of a data output', tx=tx)
        try:
            d = ref.data_push(o.script)
        except ref.Invalid as e:
            ctx.fail('data output %s is not a single well-formed push: %s' % (o.script.hex(), e), tx=tx)
        ctx.check(0 < len(d) <= 80, 'a data output carries %d bytes' % len(d), tx=tx)
        got += d
    ctx.eq(got, want, 'message bytes', tx=tx)
    ctx.eq([(o.amount, o.script) for o in t.outs[:len(outs)]], [(a, lib.spk(d)) for d, a, c in outs], 'payments', tx=tx)
    ctx.check(n - len(outs) in (0, 1), '%d outputs besides payments and message' % (n - len(outs)), tx=tx)
    if n > len(outs):
        own = ws[0].seg_script if any(c.segwit for c in coins) else ws[0].script
        ctx.eq(t.outs[n - 1].script, own, 'change goes back to the wallet', tx=tx)
    if kw.get('absolute_fee'):
        by = {(c.txid, c.txindex): c.amount for c in coins}
        ctx.eq(sum(by[i.txid[::-1].hex(), i.index] for i in t.ins) - sum(o.amount for o in t.outs), kw['fee'], 'fee', tx=tx)
    ctx.outcome('%d data outputs' % len(data))
    return tx


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'wallet':
        ws = wallet_set(tuple(u['w']))
    else:
        ws = [lib.key_wallet('main')]
    w = ws[0]
    d = lib.dests(w.net)
    coins = [w.coin('L', 90000, 0), w.coin(w.kinds[-1], 90000, 1, index=3)]
    out1 = [(d[0], 1000, 'satoshi')]
    if T == 'len':
        for n in range(u['lo'], u['hi']):
            for entry in ('create', 'prepare'):
                judge(ctx, ws, coins, out1, entry, ''.join(chr(33 + (i * 7) % 90) for i in range(n)), False, dict(fee=1), ('text', n, entry))
                judge(ctx, ws, coins[:1], out1, entry, bytes((i * 11 + n) % 256 for i in range(n)), True, dict(fee=1), ('raw', n, entry))
    elif T == 'utf':
        c = {1: 'a', 2: 'é', 3: '€', 4: '\U0001f600'}[u['k']]
        for off in range(0, 166):
            for rep in (1, 2, 30, 85):
                for entry in ('create', 'prepare'):
                    judge(ctx, ws, coins, out1, entry, 'x' * off + c * rep, False, dict(fee=1), ('utf', u['k'], off, rep, entry))
    elif T == 'bytes':
        for v in range(256):
            for n in (1, 2, 75, 76, 80, 81):
                for entry in ('create', 'prepare'):
                    judge(ctx, ws, coins, out1, entry, bytes([v]) * n, True, dict(fee=1), ('byte', v, n, entry))
            if v:
                judge(ctx, ws, coins, out1, 'prepare', chr(v), False, dict(fee=1), ('char', v))
                judge(ctx, ws, coins, out1, 'create', chr(v), False, dict(fee=1), ('char', v, 'create'))
    elif T == 'unicode':
        # every character, 16 to a message
        for lo in range(u['lo'], u['hi'], 16):
            t = ''.join(chr(c) for c in range(lo, lo + 16) if not 0xD800 <= c < 0xE000)
            if t:
                judge(ctx, ws, coins[:1], out1, 'create' if lo % 32 else 'prepare', t, False, dict(fee=1), ('unicode', lo))
    elif T == 'places':
        # every byte value at the first, last and chunk-boundary places
        for v in range(256):
            for n in (2, 3, 80, 81, 160, 161, 170):
                for at in sorted({0, 1, n - 2, n - 1, 79, 80, 81}):
                    if at < n:
                        b = bytearray((i * 29 + 64) % 127 + 1 for i in range(n))
                        b[at] = v
                        judge(ctx, ws, coins[:1], out1, 'create' if n % 2 else 'prepare', bytes(b), True, dict(fee=1), ('place', v, n, at))
        for n in (1, 2, 79, 80, 81, 82, 160, 161, 200):
            for z in (1, 2, 3, 40, 80, 81, 100):
                for pad in (b'\0', b' ', b'\n', b'\xff', b'0'):
                    for m in (pad * z + b'x' * n, b'x' * n + pad * z, b'x' * n + pad * z + b'y'):
                        for entry in ('create', 'prepare'):
                            judge(ctx, ws, coins[:1], out1, entry, m, True, dict(fee=1), ('pad', n, z, m, entry))
                            if pad != b'\xff':
                                judge(ctx, ws, coins[:1], out1, entry, m.decode(), False, dict(fee=1), ('pad text', n, z, m, entry))
    elif T == 'pairs':
        al = ['\r', '\n', '\t', '\0', ' ', 'a', 'A', 'e', '\u0301', 'é', '\u00e5', '\u212b', '\ufb01', 'ß', '\u200d', '\ufe0f', '\ufeff', '\u00a0', '\u2028', '\x7f', '\x85', '"', "'", '\\', '%', '&', '<', '0', 'x',
              'f', '\u0130', '\U0001f468', '\u1100', '\u1161', '\u11a8', '+', '/', '=', '\x1b', '\x08']
        for r in (2, 3):
            for t in itertools.product(al if r == 2 else al[:18], repeat=r):
                judge(ctx, ws, coins[:1], out1, 'create' if len(set(t)) % 2 else 'prepare', ''.join(t), False, dict(fee=1), ('pair', t))
    elif T == 'surrogates':
        # no bytes exist for these: refused, or at least nothing else embedded
        for c in (0xD800, 0xDBFF, 0xDC00, 0xDFFF):
            for t in (chr(c), 'a' + chr(c), chr(c) + 'a', 'x' * 79 + chr(c), 'x' * 100 + chr(c) + 'y' * 60):
                for entry in ('create', 'prepare'):
                    ctx.case(('surrogate', c, t, entry))
                    try:
                        tx = build(ws, coins, out1, entry, t, False, dict(fee=1))
                    except ValueError:
                        ctx.outcome('refused')
                        continue
                    got = b''.join(ref.data_push(o.script) for o in ref.parse(tx).outs if o.script[:1] == b'\x6a')
                    ctx.eq(got, t.encode('utf-8', 'surrogatepass'), 'message bytes', tx=tx)
    elif T == 'content':
        texts = ['deadbeef', 'DEADBEEF', 'abc', '0', '00', '0x00', 'null', 'true', '{"a":1}', '[]', '"', '\\', '\0', '\n\r\t', ' ' * 80, ' ' * 81, d[0], d[3], d[0] * 3, 'j' + 'L' * 75,
                 '6a', 'ab' * 40, 'ab' * 41, '\u2028\ud7ff\ue000', 'é' * 40, 'é' * 41, '\U0010ffff' * 20, '12' * 37 + '1', '%s {} {0}']
        for t in texts:
            for entry in ('create', 'prepare', 'transport'):
                for outs in ([], out1, [(x, 600 + i, 'satoshi') for i, x in enumerate(d[:3])]):
                    judge(ctx, ws, coins, outs, entry, t, False, dict(fee=2), ('content', t, entry, len(outs)))
                    judge(ctx, ws, coins, outs, entry, t.encode(), True, dict(fee=2), ('content raw', t, entry, len(outs)))
                    judge(ctx, ws, coins, outs, entry, t, False, dict(fee=900, absolute_fee=True), ('content abs', t, entry, len(outs)))
    elif T == 'draw':
        small = [w.coin(w.kinds[i % 2], 2500 + 400 * i, i, index=i) for i in range(3)]
        for n in (1, 80, 81, 161):
            for entry in ('create', 'prepare'):
                def one(ch):
                    try:
                        t2 = [w.seg_script if any(c.segwit for c in small) else w.script]
                        judge(ctx, ws, small, [(d[0], 600, 'satoshi')], entry, 'q' * n, False, dict(fee=1, combine=False), ('draw', n, entry, tuple(ch.prefix)))
                    except lib.InsufficientFunds:
                        ctx.outcome('insufficient')

                explore(one, max_dev=2, ctx=ctx)
    elif T == 'wallet':
        for nout in (0, 1, 2, 3):
            outs = [(d[(i * 3) % len(d)], 700 + i, 'satoshi') for i in range(nout)]
            for n in (0, 1, 40, 75, 76, 79, 80, 81, 159, 160, 161, 255, 256, 257, 400):
                for raw in (False, True):
                    for entry in ('create', 'prepare', 'transport'):
                        for kw in (dict(fee=2), dict(fee=2, replace_by_fee=True), dict(fee=1500, absolute_fee=True)):
                            msg = bytes(range(n % 256)) * 2 if raw else 'm' * n
                            judge(ctx, ws, coins, outs, entry, msg[:n] if raw else msg, raw, kw, (u['w'], nout, n, raw, entry, sorted(kw)))
            # nothing left over: no change, message still exact
            if nout:
                outs2 = outs[:-1] + [(outs[-1][0], 180000 - 3000 - sum(o[1] for o in outs[:-1]), 'satoshi')]
                for n in (1, 80, 200):
                    judge(ctx, ws, coins, outs2, 'create', 'm' * n, False, dict(fee=3000, absolute_fee=True), (u['w'], nout, n, 'no change'))
