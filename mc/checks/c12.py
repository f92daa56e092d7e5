"""C12: key export/import round trips, WIF corruption, signatures."""
import itertools

from .. import env, lib, refbtc as ref
from bit import Key, PrivateKey, PrivateKeyTestnet, verify_sig, wif_to_key
from bit.format import bytes_to_wif, wif_checksum_check, wif_to_bytes

LEVEL = 'model_checking'
BOUNDS = ('secrets: 1..300, n-300..n-1, every power of two and neighbour, every byte value in the first and last byte, every single-byte secret position, leading-zero '
          'and trailing-flag patterns x network x compression x all six formats; corruption: every single-character substitution, insertion, deletion, transposition of 10 WIFs, '
          'all 256 prefixes, all 256 flag bytes; signatures: all (key, data, key, data) pairs of 8 keys x 12 data, every bit flip of signature; keys one bit apart, mirrored, shifted, scaled')
ASSUMPTIONS = ['secp256k1 arithmetic of the independent reference']


def secrets():
    s = set(range(1, 301)) | {ref.N - i for i in range(1, 301)}
    for b in range(256):
        s |= {(1 << b) - 1, 1 << b, (1 << b) + 1}
    base = int.from_bytes(ref.sha(b'base'), 'big')
    for v in range(256):
        s.add((base & ((1 << 248) - 1)) | v << 248)
        s.add(base >> 8 << 8 | v)
    for i in range(32):
        s.add(0xA5 << 8 * i)
        s.add(base >> 8 * i)
        s.add((base >> 8 * i << 8 * i) | 1)
    s |= set(lib.SECRETS)
    return sorted(x for x in s if 0 < x < ref.N)


CLS = {'main': PrivateKey, 'test': PrivateKeyTestnet}
ALNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
WIFS = [lib.wif(lib.SECRETS[i], n, c) for i, n, c in ((0, 'main', True), (0, 'main', False), (1, 'test', True), (1, 'test', False), (2, 'main', True), (3, 'test', False))]
WIFS += [lib.wif(1, 'main', False), lib.wif(1, 'main', True), lib.wif(257, 'test', False), lib.wif(ref.N - 1, 'main', True)]


def units(tier):
    n = len(secrets())
    us = [{'t': 'rt', 'lo': lo, 'hi': min(n, lo + 120)} for lo in range(0, n, 120)]
    us += [{'t': 'err', 'i': i} for i in range(len(WIFS))]
    us += [{'t': 'err2', 'i': i} for i in range(len(WIFS))] if tier != 'quick' else [{'t': 'err2', 'i': 0}, {'t': 'err2', 'i': 3}]
    us += [{'t': 'prefix'}, {'t': 'sig'}, {'t': 'sigerr'}, {'t': 'new'}, {'t': 'hist'}, {'t': 'eq'}]
    return us


def same(ctx, k, sec, net, comp, how):
    pk = ref.pub(sec, comp)
    ctx.eq(k.to_int(), sec, 'integer of the key imported from %s' % how)
    ctx.eq(k.public_key, pk, 'public key of the key imported from %s' % how)
    ctx.eq(k.address, ref.p2pkh_addr(pk, net), 'address of the key imported from %s' % how)
    ctx.eq(k.segwit_address, ref.np2wpkh_addr(pk, net) if comp else None, 'segwit address of the key imported from %s' % how)
    ctx.eq(type(k), CLS[net], 'class of the key imported from %s' % how)
    ctx.eq(k.is_compressed(), comp, 'compression of the key imported from %s' % how)


def forge(wif, k):
    """True if some public entry point takes the text for a key."""
    out = []
    for name, f in (('PrivateKey', PrivateKey), ('PrivateKeyTestnet', PrivateKeyTestnet), ('Key', Key), ('wif_to_key', wif_to_key), ('wif_to_bytes', wif_to_bytes)):
        try:
            out.append((name, f(wif)))
        except (ValueError, TypeError):
            pass
    try:
        if wif_checksum_check(wif):
            out.append(('wif_checksum_check', True))
    except (ValueError, TypeError):
        pass
    return out


def bad(ctx, wif, k='', checksum=True):
    if not wif:
        return  # an empty text means 'no key given' (DESIGN.md)
    ctx.case(('bad', wif))
    r = [x for x in forge(wif, k) if checksum or x[0] != 'wif_checksum_check']
    ctx.check(not r, 'the corrupted WIF %r is accepted by %s' % (wif, [x for x, _ in r]))
    ctx.outcome('refused')


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'rt':
        for sec in secrets()[u['lo']:u['hi']]:
            for net in ('main', 'test'):
                C = CLS[net]
                for comp in (True, False):
                    ctx.case((hex(sec), net, comp), calls=14)
                    text = lib.wif(sec, net, comp)
                    k = C(text)
                    same(ctx, k, sec, net, comp, 'wif')
                    ctx.eq(k.to_wif(), text, 'exported WIF')
                    ctx.eq(bytes_to_wif(sec.to_bytes(32, 'big'), net, comp), text, 'bytes_to_wif')
                    ctx.eq(tuple(wif_to_bytes(text)), (sec.to_bytes(32, 'big'), comp, net), 'wif_to_bytes')
                    ctx.eq(wif_checksum_check(text), True, 'wif_checksum_check')
                    same(ctx, wif_to_key(text), sec, net, comp, 'wif_to_key')
                    ctx.eq(wif_to_key(text).to_wif(), text, 'WIF after wif_to_key')
                    ctx.eq(int.from_bytes(k.to_bytes(), 'big'), sec, 'bytes')
                    ctx.eq(int(k.to_hex(), 16), sec, 'hex')
                    same(ctx, C.from_bytes(k.to_bytes()), sec, net, True, 'bytes')
                    same(ctx, C.from_hex(k.to_hex()), sec, net, True, 'hex')
                    same(ctx, C.from_int(k.to_int()), sec, net, True, 'int')
                    der = k.to_der()
                    ctx.check(der[:1] == b'\x30' and (der[1] == len(der) - 2 if der[1] < 128 else int.from_bytes(der[2:2 + der[1] - 128], 'big') == len(der) - der[1] + 126), 'the DER export is not one DER value')
                    same(ctx, C.from_der(der), sec, net, True, 'der')
                    same(ctx, C.from_pem(k.to_pem()), sec, net, True, 'pem')
                    ctx.check(k == C.from_int(sec), 'equal keys compare unequal')
                    ctx.check(not (k == C.from_int(sec + 1 if sec + 1 < ref.N else sec - 1)), 'different keys compare equal')
                    ctx.eq(k.pub_to_hex(), ref.pub(sec, comp).hex(), 'public key hex')
                    ctx.outcome('round trip')
    elif T == 'eq':
        # one bit apart is another key
        for sec in lib.SECRETS[:2] + lib.SECRETS[4:6]:
            for net in ('main', 'test'):
                for comp in (True, False):
                    k = CLS[net](lib.wif(sec, net, comp))
                    for b in range(262):
                        # a bit, the mirrored point (same x), a shifted or scaled secret
                        o = sec ^ (1 << b) if b < 256 else (ref.N - sec, sec << 8, sec >> 8, 2 * sec, sec // 2, int.from_bytes(sec.to_bytes(32, 'big')[::-1], 'big'))[b - 256]
                        if not 0 < o < ref.N or o == sec:
                            continue
                        x = CLS[net](lib.wif(o, net, comp))
                        ctx.case(('eq', hex(sec), net, comp, b))
                        ctx.check(not (k == x) and not (x == k), 'different keys compare equal')
                        ctx.check(k.address != x.address and k.public_key != x.public_key, 'different keys share an address')
                        ctx.outcome('different')
    elif T == 'err':
        w = WIFS[u['i']]
        # the right text has been used before: corruptions are refused all the same
        ctx.eq(len(forge(w, '')), 6, 'uses of a valid WIF')
        for i in range(len(w)):
            for c in ALNUM + ' \n0é１':
                if c != w[i]:
                    bad(ctx, w[:i] + c + w[i + 1:])
                x = w[:i] + c + w[i:]
                if x != w:
                    bad(ctx, x)
            bad(ctx, w[:i] + w[i + 1:])
            bad(ctx, w[:i])
            if i + 1 < len(w) and w[i] != w[i + 1]:
                bad(ctx, w[:i] + w[i + 1] + w[i] + w[i + 2:])
        for c in ALNUM + ' \n':
            bad(ctx, w + c)
        for x in (w.lower(), w.upper(), w.swapcase(), w[::-1], w + w):
            if x != w:
                bad(ctx, x)
    elif T == 'err2':
        w = WIFS[u['i']]
        ctx.eq(len(forge(w, '')), 6, 'uses of a valid WIF')
        for i, j in itertools.combinations(range(len(w) - (5 if ctx.tier == 'quick' else 12), len(w)), 2):
            for c in ref.B58:
                for d in ref.B58:
                    if c != w[i] and d != w[j]:
                        bad(ctx, w[:i] + c + w[i + 1:j] + d + w[j + 1:])
    elif T == 'prefix':
        for sec in (lib.SECRETS[0], 1, 257):
            b = sec.to_bytes(32, 'big')
            for p in range(256):
                for tail in (b'', b'\1'):
                    text = ref.b58cenc(bytes([p]) + b + tail)
                    if p in (0x80, 0xEF):
                        ctx.case(('prefix', p, tail))
                        ctx.eq(tuple(wif_to_bytes(text)), (b, bool(tail), 'main' if p == 0x80 else 'test'), 'wif_to_bytes')
                    else:
                        bad(ctx, text)
            # checksum variants
            body = b'\x80' + b + b'\1'
            for i in range(4):
                for x in range(1, 256):
                    c = bytearray(ref.dsha(body)[:4])
                    c[i] ^= x
                    bad(ctx, ref.b58enc(body + bytes(c)))
            for k in (0, 1, 2, 3, 5):
                bad(ctx, ref.b58enc(body + ref.dsha(body)[:k]))
        # a right checksum over something that is not exactly one key
        for p in (b'\x80', b'\xef'):
            for body in (b'\5' * 60, b'\0' * 60, b'\1' * 60, b'\0' * 28 + b'\5' * 32, b'\xff' * 60, bytes(range(7, 67))):
                for n in range(61):
                    for tail in (b'', b'\1', b'\1\1', b'\0', b'\2'):
                        x = body[:n] + tail
                        if len(x) == 32 or len(x) == 33 and x[-1:] == b'\1':
                            continue
                        bad(ctx, ref.b58cenc(p + x), checksum=False)
            for sec in (lib.SECRETS[0], 1, 257, ref.N - 1):
                for f in range(256):
                    if f != 1:
                        bad(ctx, ref.b58cenc(p + sec.to_bytes(32, 'big') + bytes([f])), checksum=False)
            for sec in (0, ref.N, ref.N + 1, 2**256 - 1):
                for tail in (b'', b'\1'):
                    x = ref.b58cenc(p + sec.to_bytes(32, 'big') + tail)
                    ctx.case(('range', x))
                    for f in (PrivateKey, PrivateKeyTestnet, Key, wif_to_key):
                        try:
                            f(x)
                        except ValueError:
                            ctx.outcome('out of range refused')
                        else:
                            ctx.fail('the out-of-range key %x is accepted by %s' % (sec, f.__name__))
        for x in ('', ' ', '5', 'L', '1' * 51, '5' * 51, 'K' * 52):
            bad(ctx, x)
        for x in (b'abc', 5, ['x'], WIFS[0].encode()):
            ctx.case(('type', repr(x)))
            for C in (PrivateKey, PrivateKeyTestnet):
                try:
                    C(x)
                except (TypeError, ValueError):
                    ctx.outcome('type refused')
                else:
                    ctx.fail('%r is taken for a WIF' % (x,))
    elif T == 'sig':
        ks = [CLS[n](lib.wif(s, n, c)) for s, n, c in ((lib.SECRETS[0], 'main', True), (lib.SECRETS[0], 'test', False), (lib.SECRETS[1], 'main', False), (1, 'main', True),
                                                       (2, 'test', True), (ref.N - 1, 'main', True), (ref.N - 2, 'test', False), (lib.SECRETS[3], 'main', True))]
        secs = [k.to_int() for k in ks]
        data = [b'', b'\0', b'a', b'b', b'ab', b'a' * 31, b'a' * 32, b'a' * 33, b'\0' * 32, b'\xff' * 32, b'x' * 1000, b'x' * 1001]
        sigs = {}
        for i, k in enumerate(ks):
            for d in data:
                s = k.sign(d)
                sigs[i, d] = s
                ctx.case(('sign', i, len(d)))
                ref.check_sig_encoding(s + b'\1')
                ctx.check(ref.verify(k.public_key, ref.sha(d), s + b'\1'), 'signature does not verify under the independent verifier')
        for (i, d), s in sigs.items():
            for j, k in enumerate(ks):
                for e in data:
                    want = secs[i] == secs[j] and d == e
                    ctx.case(('verify', i, j, len(d), len(e)))
                    ctx.eq(bool(k.verify(s, e)), want, 'verify')
                    ctx.eq(bool(verify_sig(s, e, k.public_key)), want, 'verify_sig')
                    ctx.outcome('verify %s' % want)
    elif T == 'sigerr':
        for C, sec in ((PrivateKey, lib.SECRETS[0]), (PrivateKeyTestnet, 1)):
            k = C.from_int(sec)
            for d in (b'data', b''):
                s = k.sign(d)
                for i in range(len(s)):
                    for bit in range(8):
                        x = bytearray(s)
                        x[i] ^= 1 << bit
                        ctx.case(('flip', sec, i, bit))
                        for f in (lambda: k.verify(bytes(x), d), lambda: verify_sig(bytes(x), d, k.public_key)):
                            try:
                                r = f()
                            except ValueError:
                                r = False
                            ctx.check(not r, 'a corrupted signature verifies')
                        ctx.outcome('rejected')
    elif T == 'new':
        # freshly generated keys survive every format too
        for C, net in ((PrivateKey, 'main'), (PrivateKeyTestnet, 'test')):
            for i in range(20):
                k = C()
                ctx.case(('new', net, i))
                sec = k.to_int()
                ctx.check(0 < sec < ref.N, 'secret out of range')
                same(ctx, k, sec, net, True, 'generation')
                same(ctx, C(k.to_wif()), sec, net, True, 'wif')
                ctx.outcome('new')
    elif T == 'hist':
        # imports do not influence each other
        texts = WIFS[:6]
        info = [(0, 'main', True), (0, 'main', False), (1, 'test', True), (1, 'test', False), (2, 'main', True), (3, 'test', False)]
        for a, b, c in itertools.product(range(6), repeat=3):
            ctx.case(('hist', a, b, c))
            ks = [wif_to_key(texts[x]) for x in (a, b, c)]
            for x, k in zip((a, b, c), ks):
                si, net, comp = info[x]
                same(ctx, k, lib.SECRETS[si], net, comp, 'history')
                ctx.eq(k.to_wif(), texts[x], 'WIF')
            ctx.outcome('history')
