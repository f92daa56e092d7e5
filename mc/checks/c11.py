"""C11: the codecs against independent ones, in both directions."""
import itertools

from .. import env, refbtc as ref
from bit.base58 import b58decode, b58decode_check, b58encode, b58encode_check
from bit.base32 import bech32_decode, bech32_encode, convertbits, decode, encode

LEVEL = 'model_checking'
BOUNDS = ('base58: every byte string of length <=2, every text of length <=3 (thorough 4), every length 0..128 x leading zeros 0..len x 7 fillings, every byte value at every '
          'position of 25- and 38-byte strings, every invalid character at every position; checks: every single-character error of 40 texts, every payload length 0..80; '
          'bech32: every data list of length <=2, every length to the 90-character limit x hrp length, every single-character error, all character pairs in the last 7, all checksum deviations of up to 2 bits and the bech32m constant; '
          'regrouping: every 1- and 2-byte string, every length 0..80, every padding')
ASSUMPTIONS = []
FILL = (0, 1, 57, 58, 127, 128, 255)


def units(tier):
    us = [{'t': 'bytes2', 'lo': lo, 'hi': lo + 32} for lo in range(0, 256, 32)]
    us += [{'t': 'text', 'c': c, 'n': 3 if tier == 'quick' else 4} for c in ref.B58[::1]]
    us += [{'t': t} for t in ('zeros', 'pos', 'badchar', 'check', 'checkerr', 'conv')]
    us += [{'t': 'bech', 'h': h} for h in ('bc', 'tb', 'bcrt', 'a', '1', 'lnbc1', '~!')]
    us += [{'t': 'bechlen'}, {'t': 'becherr'}, {'t': 'bechchar'}, {'t': 'segwit'}, {'t': 'bechconst'}]
    return us


def rt_bytes(ctx, b):
    t = b58encode(b)
    ctx.case(b.hex() or 'empty')
    ctx.eq(t, ref.b58enc(b), 'base58 of %s' % b.hex())
    back = b58decode(t)
    if back == b:
        ctx.outcome('bytes')
    elif not b.strip(b'\0') and back == b + b'\0':
        ctx.known_finding('b58-zero-padding', 'b58decode(b58encode(%r)) == %r' % (b, back))
    else:
        ctx.fail('b58decode(b58encode(%r)) == %r' % (b, back))


def rt_text(ctx, t):
    ctx.case(t or 'empty')
    b = b58decode(t)
    want = ref.b58dec(t)
    if b == want:
        ctx.eq(b58encode(b), t, 'encoding of the decoded text')
        ctx.outcome('text')
    elif not t.strip('1') and b == want + b'\0':
        ctx.known_finding('b58-zero-padding', 'b58decode(%r) == %r' % (t, b))
    else:
        ctx.fail('b58decode(%r) == %r, expected %r' % (t, b, want))


def refuse(ctx, f, t, what):
    ctx.case((what, t))
    try:
        r = f(t)
    except ValueError:
        ctx.outcome('rejected')
        return
    ctx.fail('%s: %r was accepted and gave %r' % (what, t, r))


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'bytes2':
        if u['lo'] == 0:
            rt_bytes(ctx, b'')
        for x in range(u['lo'], u['hi']):
            rt_bytes(ctx, bytes([x]))
            for y in range(256):
                rt_bytes(ctx, bytes([x, y]))
    elif T == 'text':
        if u['c'] == '1':
            rt_text(ctx, '')
        for n in range(0, u['n']):
            for t in itertools.product(ref.B58, repeat=n):
                rt_text(ctx, u['c'] + ''.join(t))
    elif T == 'zeros':
        for n in list(range(0, 129)) + [255, 256, 257, 512, 1000]:
            for z in range(0, n + 1) if n < 129 else (0, 1, n - 1, n):
                for f in FILL:
                    if f == 0 and z != n:
                        continue
                    rt_bytes(ctx, bytes(z) + bytes([f]) * (n - z))
        for n in range(0, 140):
            for z in range(0, n + 1):
                for c in '2zA':
                    rt_text(ctx, '1' * z + c * (n - z))
    elif T == 'pos':
        for n in (25, 38, 37, 8):
            for base in (bytes(n), bytes([255]) * n, (ref.sha(b'x') * 2)[:n]):
                for i in range(n):
                    for v in range(256):
                        b = bytearray(base)
                        b[i] = v
                        rt_bytes(ctx, bytes(b))
    elif T == 'badchar':
        bad = [chr(c) for c in range(0x250) if chr(c) not in ref.B58] + ['１', '٣', 'Ａ', '\U0001d7cf']
        for base in ('', '2', '11', 'zz', '1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa'):
            for i in range(len(base) + 1):
                for c in bad:
                    refuse(ctx, b58decode, base[:i] + c + base[i:], 'b58decode')
                    refuse(ctx, b58decode_check, base[:i] + c + base[i:], 'b58decode_check')
    elif T == 'check':
        for n in range(0, 81):
            for z in range(0, n + 1):
                for f in (1, 255, 77):
                    b = bytes(z) + bytes([f]) * (n - z)
                    ctx.case(('check', b.hex()))
                    t = b58encode_check(b)
                    ctx.eq(t, ref.b58cenc(b), 'base58check text')
                    ctx.eq(b58decode_check(t), b, 'base58check round trip')
                    ctx.outcome('check')
        for t in itertools.chain([''], ref.B58, map(''.join, itertools.product(ref.B58, repeat=2)), ('1' * n for n in range(60)), ('z' * n for n in range(60))):
            refuse(ctx, b58decode_check, t, 'b58decode_check')
    elif T == 'checkerr':
        texts = [ref.b58cenc(b) for b in [b'', b'\0', b'\1', bytes(21), b'\5' + bytes(range(20)), b'\x80' + ref.sha(b'k'), b'\xef' + ref.sha(b'k') + b'\1']]
        texts += [ref.b58cenc(ref.sha(bytes([i]))[: 5 * i]) for i in range(6)]
        for t in texts:
            for i in range(len(t)):
                for c in ref.B58 + '0OIl ':
                    if c != t[i]:
                        refuse(ctx, b58decode_check, t[:i] + c + t[i + 1:], 'b58decode_check')
                    refuse(ctx, b58decode_check, t[:i] + c + t[i:], 'b58decode_check')
                refuse(ctx, b58decode_check, t[:i] + t[i + 1:], 'b58decode_check')
                refuse(ctx, b58decode_check, t[:i], 'b58decode_check')
            b = ref.b58dec(t)
            for i in range(len(b)):
                for bit in range(8):
                    c = bytearray(b)
                    c[i] ^= 1 << bit
                    refuse(ctx, b58decode_check, ref.b58enc(bytes(c)), 'b58decode_check')
    elif T == 'bech':
        h = u['h']
        datas = [[]] + [[a] for a in range(32)] + [[a, b] for a in range(32) for b in range(32)]
        datas += [[a] * n for a in (0, 1, 15, 16, 31) for n in range(3, 84 - len(h))] + [[(i * k) % 32 for i in range(n)] for k in (1, 3, 7, 31) for n in range(3, 84 - len(h))]
        for d in datas:
            bech(ctx, h, d)
    elif T == 'bechlen':
        for n in range(1, 84):
            for c in ('a', '1', '!', '~', 'z0'):
                h = (c * n)[:n]
                for k in (0, 1, 83 - n, 84 - n, 85 - n):
                    if k >= 0:
                        bech(ctx, h, [i % 32 for i in range(k)])
    elif T == 'becherr':
        texts = [ref.segwit_addr('bc', 0, ref.sha(b'1')[:20]), ref.segwit_addr('tb', 0, ref.sha(b'2')), ref.bech_enc('bcrt', [1, 2, 3]), ref.bech_enc('a', []),
                 ref.bech_enc('bc', [0] * 40), ref.bech_enc('bc', [31] * 79)]
        for t in texts:
            for i in range(len(t)):
                for c in [chr(x) for x in range(30, 130)] + ['İ', 'ı', 'é']:
                    if c != t[i]:
                        bechbad(ctx, t[:i] + c + t[i + 1:])
                    if c not in 'pq' and c in ref.CH and i > t.rfind('1'):
                        bechbad(ctx, t[:i] + c + t[i:])
            p = t.rfind('1')
            for i, j in itertools.combinations(range(max(p + 1, len(t) - 7), len(t)), 2):
                for c in ref.CH:
                    for d in ref.CH:
                        if c != t[i] and d != t[j]:
                            bechbad(ctx, t[:i] + c + t[i + 1:j] + d + t[j + 1:])
    elif T == 'bechconst':
        # checksums of any other constant, bech32m's among them
        masks = {0x2BC830A3 ^ 1, 1, 0x3FFFFFFE, 0x3FFFFFFF} | {1 << i for i in range(30)} | {1 << i | 1 << j for i in range(30) for j in range(i)}
        for h, d in (('bc', [0] + ref.to5(ref.sha(b'1')[:20])), ('tb', [1] + ref.to5(ref.sha(b'2'))), ('bcrt', [16] + ref.to5(b'ab')), ('a', []), ('x1y', [5, 6, 7])):
            t = ref.bech_enc(h, d)
            good = [ref.CH.index(c) for c in t[-6:]]
            for mk in sorted(masks):
                bad = ''.join(ref.CH[g ^ (mk >> 5 * (5 - i) & 31)] for i, g in enumerate(good))
                bechbad(ctx, t[:-6] + bad)
                bechbad(ctx, (t[:-6] + bad).upper())
                if h in ('bc', 'tb', 'bcrt'):
                    ctx.eq(tuple(map(_l, decode(t[:-6] + bad))), (None, None), 'decoding a wrong checksum')
    elif T == 'bechchar':
        t = ref.segwit_addr('bc', 0, ref.sha(b'1')[:20])
        for i in range(len(t)):
            if t[i].isalpha():
                bechbad(ctx, t[:i] + t[i].upper() + t[i + 1:])
                bechbad(ctx, t.upper()[:i] + t[i].lower() + t.upper()[i + 1:])
        for x in ('', '1', 'bc', 'bc1', '1bc', t[3:], '1' + t, ' ' + t, t + ' ', t + '\n', t[:-6], t[:-1], 'bc' + t[3:]):
            bechbad(ctx, x)
        for n in range(0, 8):
            for c in 'qpl':
                bechbad(ctx, 'bc1' + c * n)
    elif T == 'segwit':
        for hrp in ('bc', 'tb', 'bcrt', 'ltc', 'b'):
            for v in range(0, 32):
                for n in range(0, 44):
                    for seed in (b'a', None):
                        prog = list((ref.sha(seed) * 2)[:n]) if seed else [0] * n
                        ctx.case(('segwit', hrp, v, n, seed))
                        ok = hrp in ('bc', 'tb', 'bcrt') and v <= 16 and 2 <= n <= 40 and (v or n in (20, 32))
                        t = encode(hrp, v, prog)
                        if ok:
                            ctx.eq(t, ref.segwit_addr(hrp, v, bytes(prog)), 'segwit address')
                            ctx.eq(tuple(map(_l, decode(t))), (v, prog), 'decoded segwit address')
                            ctx.eq(tuple(map(_l, decode(t.upper()))), (v, prog), 'decoded upper-case segwit address')
                            ctx.outcome('segwit')
                        else:
                            ctx.check(t is None, 'an invalid witness program was encoded: %r' % t)
                            ctx.eq(tuple(decode(ref.segwit_addr(hrp, v, bytes(prog)))), (None, None), 'decoding an invalid witness program')
                            ctx.outcome('segwit invalid')
    elif T == 'conv':
        bs = [b''] + [bytes([x]) for x in range(256)] + [bytes([x, y]) for x in range(256) for y in range(256)]
        bs += [bytes([f]) * n for f in FILL for n in range(3, 81)] + [(ref.sha(b'%d' % n) * 3)[:n] for n in range(3, 81)]
        for b in bs:
            ctx.case(('conv', b.hex()))
            f = list(convertbits(list(b), 8, 5))
            ctx.eq(f, ref.to5(b), 'regrouping to 5 bits')
            ctx.eq(bytes(convertbits(f, 5, 8, False)), b, 'regrouping back')
            ctx.outcome('conv')
        for n in range(1, 20):
            for last in range(32):
                for prev in (0, 31):
                    d = [prev] * (n - 1) + [last]
                    ctx.case(('conv5', n, last, prev))
                    try:
                        want = list(ref.from5(d))
                    except ref.Invalid:
                        want = None
                    ctx.eq(_l(convertbits(d, 5, 8, False)), want, 'regrouping 5-bit groups')
                    ctx.outcome('conv5')
        for bad in (-1, 32, 33, 255, 256, 1000):
            for pos in range(3):
                d = [1, 2, 3]
                d[pos] = bad
                ctx.case(('convbad', bad, pos))
                ctx.check(convertbits(d, 5, 8, False) is None, 'a group out of range was accepted')
                if not 0 <= bad < 256:
                    ctx.check(convertbits(d, 8, 5) is None, 'a byte out of range was accepted')


def _l(x):
    return list(x) if isinstance(x, (list, tuple, bytes)) else x


def bech(ctx, h, d):
    ctx.case(('bech', h, d))
    t = bech32_encode(h, list(d))
    ctx.eq(t, ref.bech_enc(h, d), 'bech32 text')
    got = bech32_decode(t)
    if len(t) > 90:
        ctx.eq(tuple(got), (None, None), 'decoding a text longer than 90 characters')
        ctx.outcome('bech too long')
        return
    ctx.eq((got[0], _l(got[1])), (h, list(d)), 'bech32 round trip')
    if h.islower() or not h.isalpha():
        up = bech32_decode(t.upper())
        ctx.eq((up[0], _l(up[1])), (h.lower(), list(d)), 'bech32 round trip in upper case')
    ctx.outcome('bech')


def bechbad(ctx, t):
    ctx.case(('bad', t))
    try:
        want = ref.bech_dec(t)
    except ref.Invalid:
        want = (None, None)
    try:
        got = bech32_decode(t)
    except ValueError:
        got = (None, None)
    ctx.eq((got[0], _l(got[1])), (want[0], _l(want[1])), 'decoding %r' % t)
    ctx.outcome('bech bad' if want[0] is None else 'bech same')
