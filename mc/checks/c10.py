"""C10: every string of the enumerated classes is judged against an independent
decoder: the right script and network, or refused."""
import itertools

from .. import env, lib, refbtc as ref
from bit.format import address_to_public_key_hash, get_version
from bit.transaction import address_to_scriptpubkey

LEVEL = 'model_checking'
BOUNDS = ('valid: every kind x network x boundary hash; segwit v0..v31 x program length 0..45 x human-readable parts; base58: all 256 version bytes x payload '
          'lengths 0..45; corruption: every single-character substitution, deletion, insertion, transposition and case flip of 26 addresses, every padding and '
          'checksum variant, all pairs of substitutions within the last 8 (thorough: all) characters; every string of up to 3 (thorough 4) characters; through the script function and '
          'through create_transaction')
ASSUMPTIONS = ['segwit v1+ addresses use the bech32 checksum of the library (bech32m is not supported; DESIGN.md)']

ALNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
ODD = ' \t\n-_+\x00\x7f\x80é１０٣Iİıſ'
HASHES = [bytes([0] * 20), bytes([255] * 20), bytes(range(20)), bytes([0] * 19 + [1]), bytes([1] + [0] * 19), bytes([0, 0, 7] + [9] * 17), ref.sha(b'a')[:20]]


def samples():
    out = []
    for net, hrps in (('main', ('bc',)), ('test', ('tb', 'bcrt'))):
        for v in ((0, 5) if net == 'main' else (0x6F, 0xC4)):
            for h in (HASHES[0], HASHES[2], HASHES[5], HASHES[6]):
                out.append(ref.b58cenc(bytes([v]) + h))
        for hrp in hrps:
            out.append(ref.segwit_addr(hrp, 0, HASHES[6]))
            out.append(ref.segwit_addr(hrp, 0, ref.sha(b'b')).upper())
            out.append(ref.segwit_addr(hrp, 16, b'\x75\x1e'))
    out.append(ref.segwit_addr('bc', 1, ref.sha(b'c') + b'abcdefgh'))
    return out


def checksum_wrong(a):
    """Neither a base58 nor a bech32 text with the right checksum."""
    try:
        ref.b58cdec(a)
        return False
    except ref.Invalid:
        pass
    try:
        ref.bech_dec(a)
        return False
    except ref.Invalid:
        return True


def b58ok(a):
    try:
        ref.b58cdec(a)
    except ref.Invalid:
        return False
    return True


def judge(ctx, a, pay=None):
    try:
        net, script = ref.decode_address(a)
    except ref.Invalid:
        net = None
    ctx.case(a if isinstance(a, str) else repr(a))
    if net is not None:
        ctx.eq(address_to_scriptpubkey(a), script, 'script of the valid address %s' % a)
        ctx.eq(get_version(a), net, 'network of the valid address %s' % a)
        if script[:1] in b'\x76\xa9':
            ctx.eq(address_to_public_key_hash(a), script[3:23] if script[:1] == b'\x76' else script[2:22], 'hash of the valid address %s' % a)
        ctx.outcome('valid ' + net)
    else:
        if isinstance(a, str) and (checksum_wrong(a) or b58ok(a)):
            for f in (get_version, address_to_public_key_hash):
                try:
                    r = f(a)
                except ValueError:
                    pass
                else:
                    ctx.fail('%s takes the invalid address %r: %r' % (f.__name__, a, r))
        try:
            r = address_to_scriptpubkey(a)
        except ValueError:
            ctx.outcome('refused')
        else:
            ctx.fail('the invalid address %r is paid with script %s' % (a, getattr(r, 'hex', lambda: r)()))
    if pay:
        w = pay[0 if net != 'test' else 1]
        coins = [w.coin('L', 50000, 0)]
        try:
            tx = w.obj.create_transaction([(a, 1000, 'satoshi')], fee=1, unspents=coins)
        except ValueError:
            ctx.check(net is None, 'paying the valid address %s is refused' % a)
        else:
            ctx.check(net is not None, 'the invalid address %r is paid' % a, tx=tx)
            ctx.eq(ref.parse(tx).outs[0].script, script, 'script paid for %s' % a)


def units(tier):
    us = [{'t': 'valid'}, {'t': 'b58'}, {'t': 'segwit'}, {'t': 'bits'}, {'t': 'odd'}]
    for i in range(len(samples())):
        us.append({'t': 'err', 'i': i})
        us.append({'t': 'err2', 'i': i})
    for c in ('123', 'bt', 'mn2', ''):
        us.append({'t': 'short', 'c': c, 'n': 3 if tier == 'quick' else 4})
    us.append({'t': 'history'})
    return us


def errors(a, alphabet):
    for i in range(len(a)):
        for c in alphabet:
            if c != a[i]:
                yield a[:i] + c + a[i + 1:]
        yield a[:i] + a[i + 1:]
        if i + 1 < len(a):
            yield a[:i] + a[i + 1] + a[i] + a[i + 2:]
        yield a[:i]
        yield a[i:] + a[:i]
        yield a[:i] + a[i] + a[i:]
        yield a[:i] + a[i].swapcase() + a[i + 1:]
    for i in range(len(a) + 1):
        for c in alphabet:
            yield a[:i] + c + a[i:]


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    pay = [lib.key_wallet('main'), lib.key_wallet('test')]
    if T == 'valid':
        hs = HASHES + [bytes([x] * 20) for x in range(1, 255, 9)] + [bytes(i) + bytes([200]) * (20 - i) for i in range(20)]
        for v in (0, 5, 0x6F, 0xC4):
            for h in hs:
                judge(ctx, ref.b58cenc(bytes([v]) + h), pay)
        for hrp in ('bc', 'tb', 'bcrt'):
            for h in hs:
                for prog in (h, h + h[:12]):
                    for up in (False, True):
                        a = ref.segwit_addr(hrp, 0, prog)
                        judge(ctx, a.upper() if up else a, pay)
    elif T == 'b58':
        for v in range(256):
            for n in range(0, 46):
                judge(ctx, ref.b58cenc(bytes([v]) + (ref.sha(b'%d' % v) * 2)[:n]))
                if n == 20:
                    judge(ctx, ref.b58cenc(bytes([v]) + bytes(20)), pay)
        judge(ctx, ref.b58cenc(b''))
        for v in (0, 5, 0x6F, 0xC4):
            body = bytes([v]) + HASHES[2]
            for i in range(4):
                for b in range(256):
                    c = bytearray(ref.dsha(body)[:4])
                    c[i] ^= b
                    judge(ctx, ref.b58enc(body + bytes(c)), pay if b in (0, 1, 128) else None)
            for k in range(0, 8):
                # the checksum shortened, lengthened, swapped, of a single hash
                judge(ctx, ref.b58enc(body + ref.dsha(body)[:k]))
            judge(ctx, ref.b58enc(body + ref.sha(body)[:4]))
            judge(ctx, ref.b58enc(body + ref.dsha(body)[:4][::-1]))
            judge(ctx, ref.b58enc(body + ref.dsha(body)[-4:]))
            for k in range(1, 6):
                judge(ctx, '1' * k + ref.b58cenc(body))
                judge(ctx, ref.b58cenc(body).lstrip('1'))
    elif T == 'segwit':
        for hrp in ('bc', 'tb', 'bcrt', 'b', 't', 'bcr', 'bcrtt', 'ltc', 'bt', 'tbc', 'cb', '1', 'bc1', 'tb1', '11', 'BC'):
            for ver in range(32):
                for n in range(0, 46):
                    prog = (ref.sha(b'p') * 2)[:n]
                    try:
                        a = ref.bech_enc(hrp.lower(), [ver] + ref.to5(prog))
                    except Exception:
                        continue
                    judge(ctx, a, pay if hrp == 'bc' and ver in (0, 1, 16, 17, 31) else None)
                    if n in (20, 32) and ver in (0, 1, 16, 17):
                        judge(ctx, a.upper())
                        judge(ctx, ref.bech_enc(hrp.lower(), [ver] + ref.to5(prog), 0x2BC830A3))
                        if hrp.upper() == hrp and hrp.lower() != hrp:
                            judge(ctx, hrp + a[len(hrp):])
            judge(ctx, ref.bech_enc(hrp.lower(), []))
    elif T == 'bits':
        # every padding pattern, and extra or missing 5-bit groups
        for hrp in ('bc', 'tb'):
            for ver in (0, 1, 16):
                for n in (2, 3, 19, 20, 21, 31, 32, 33, 39, 40):
                    five = ref.to5((ref.sha(b'q') * 2)[:n])
                    for last in range(32):
                        judge(ctx, ref.bech_enc(hrp, [ver] + five[:-1] + [last]), pay if n == 20 else None)
                        judge(ctx, ref.bech_enc(hrp, [ver] + five + [last]), pay if n == 20 else None)
                    judge(ctx, ref.bech_enc(hrp, [ver] + five[:-1]))
                    judge(ctx, ref.bech_enc(hrp, [ver] + five + [0, 0]))
                    for const in (0, 1, 2, 3, 0x2BC830A3, 0x3FFFFFFF):
                        judge(ctx, ref.bech_enc(hrp, [ver] + five, const), pay)
        # total length around the 90-character limit
        for n in range(70, 100):
            judge(ctx, ref.bech_enc('bc', [1] + [0] * n))
            judge(ctx, ref.bech_enc('tb', [0] + [1] * n))
    elif T == 'err':
        a = samples()[u['i']]
        judge(ctx, a, pay)
        for j, b in enumerate(errors(a, ALNUM + ODD)):
            judge(ctx, b, pay if j % 5 == 0 else None)
        for pre in ODD:
            judge(ctx, pre + a, pay)
            judge(ctx, a + pre, pay)
        for b in (a.lower(), a.upper(), a.swapcase(), a[::-1], a + a, 'bitcoin:' + a):
            judge(ctx, b, pay)
    elif T == 'err2':
        a = samples()[u['i']]
        seg = a[:2].lower() in ('bc', 'tb') and a[-1] not in 'z'
        al = ref.CH if a.lower().startswith(('bc1', 'tb1', 'bcrt1')) else ref.B58
        if a.isupper():
            al = al.upper() if al == ref.CH else al
        start = max(3, len(a) - (8 if ctx.tier == 'quick' else len(a)))
        step = 1
        for i, j in itertools.combinations(range(start, len(a)), 2):
            for c in al[::step]:
                if c == a[i]:
                    continue
                for d in al[:: 3 if ctx.tier == 'quick' else 2]:
                    if d != a[j]:
                        judge(ctx, a[:i] + c + a[i + 1:j] + d + a[j + 1:])
    elif T == 'short':
        if u['c']:
            for f in u['c']:
                for n in range(0, u['n']):
                    for t in itertools.product(ALNUM, repeat=n):
                        judge(ctx, f + ''.join(t))
        else:
            judge(ctx, '', pay)
            for c in [chr(x) for x in range(256)]:
                judge(ctx, c)
                for d in ALNUM:
                    judge(ctx, c + d)
            for c in ref.B58:
                for n in range(1, 120):
                    judge(ctx, c * n)
    elif T == 'odd':
        for a in samples():
            for b in (a.encode(), None, 5, [a], bytearray(a, 'ascii')):
                ctx.case(repr(b))
                try:
                    r = address_to_scriptpubkey(b)
                except Exception:
                    ctx.outcome('refused type')
                else:
                    ctx.fail('%r is taken for an address' % (b,))
            # mixed halves of two addresses
            for c in samples():
                for k in (1, 3, 4, len(a) // 2):
                    judge(ctx, a[:k] + c[k:])
    elif T == 'history':
        # the verdict on an address does not depend on what was asked before
        s = samples()
        bad = [x[:-1] + ('q' if x[-1] != 'q' else 'p') for x in s]
        for x, y, z in itertools.product((s[0], s[9], s[8], bad[0], bad[9], s[-1]), repeat=3):
            judge(ctx, x)
            judge(ctx, y, pay)
            judge(ctx, z)
