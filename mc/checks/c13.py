"""C13: addresses of keys and contracts, ordering, invalid contracts, points."""
import itertools

from .. import env, lib, refbtc as ref
from bit import Key, MultiSig, MultiSigTestnet, PrivateKey, PrivateKeyTestnet
from bit.curve import Point, x_to_y
from bit.format import (coords_to_public_key, multisig_to_address, multisig_to_redeemscript, multisig_to_segwit_address, point_to_public_key,
                        public_key_to_address, public_key_to_coords, public_key_to_segwit_address)
from .c12 import secrets

LEVEL = 'model_checking'
BOUNDS = ('addresses and point conversions of every secret of the C12 alphabet and its negation (and all multiples up to 3000 of the generator with a zero leading coordinate byte) x '
          'network x compression; contracts: every m<=n<=15 compressed, n<=7 with every position of an uncompressed key, every permutation for n<=4 as list and set, '
          'every mix of bytes / lower / upper hex for n<=3; every sign x form x order x m for n<=3 in one process; every invalid m, length, size, membership and type')
ASSUMPTIONS = ['secp256k1 arithmetic of the independent reference']
CLS = {'main': (MultiSig, PrivateKey), 'test': (MultiSigTestnet, PrivateKeyTestnet)}


def units(tier):
    n = len(secrets())
    us = [{'t': 'key', 'lo': lo, 'hi': min(n, lo + 120)} for lo in range(0, n, 120)]
    us += [{'t': 'zero', 'lo': lo, 'hi': lo + (500 if tier == 'quick' else 4000)} for lo in range(1, 3000 if tier == 'quick' else 30000, 500 if tier == 'quick' else 4000)]
    us += [{'t': 'mn', 'n': n, 'net': net} for n in range(1, 16) for net in ('main', 'test')]
    us += [{'t': 'unc', 'n': n, 'net': net} for n in range(1, 8) for net in ('main', 'test')]
    us += [{'t': 'perm', 'n': n, 'net': net} for n in (1, 2, 3, 4) for net in ('main', 'test')]
    us += [{'t': 'form', 'n': n, 'net': net} for n in (1, 2, 3) for net in ('main', 'test')]
    us += [{'t': 'mirror', 'n': n} for n in (1, 2, 3)]
    us += [{'t': 'invalid', 'net': net} for net in ('main', 'test')]
    return us


def points(ctx, sec):
    point(ctx, sec)
    point(ctx, ref.N - sec)  # the key with the same x coordinate


def point(ctx, sec):
    x, y = ref.point(sec)
    for comp in (True, False):
        pk = ref.pub(sec, comp)
        ctx.eq(tuple(public_key_to_coords(pk)), (x, y), 'coordinates of a public key')
        ctx.eq(coords_to_public_key(x, y, compressed=comp), pk, 'public key of coordinates')
        ctx.eq(point_to_public_key(Point(x, y), compressed=comp), pk, 'public key of a point')
    ctx.eq(x_to_y(x, y & 1), y, 'y of x')
    ctx.eq(x_to_y(x, 1 - (y & 1)), ref.P - y, 'other y of x')


def key(ctx, sec):
    for net in ('main', 'test'):
        for comp in (True, False):
            ctx.case((hex(sec), net, comp), calls=8)
            pk = ref.pub(sec, comp)
            k = CLS[net][1](lib.wif(sec, net, comp))
            ctx.eq(k.address, ref.p2pkh_addr(pk, net), 'address')
            ctx.eq(k.segwit_address, ref.np2wpkh_addr(pk, net) if comp else None, 'segwit address')
            ctx.eq(k.public_key, pk, 'public key')
            ctx.eq(tuple(k.public_point), ref.point(sec), 'public point')
            ctx.eq(public_key_to_address(pk, net), ref.p2pkh_addr(pk, net), 'public_key_to_address')
            if comp:
                ctx.eq(public_key_to_segwit_address(pk, net), ref.np2wpkh_addr(pk, net), 'public_key_to_segwit_address')
            ctx.eq((k.address, k.segwit_address, k.public_key), (ref.p2pkh_addr(pk, net), ref.np2wpkh_addr(pk, net) if comp else None, pk), 'addresses on a second look')
            ctx.outcome('key')


def contract(ctx, net, m, secs, comp, arg, order, who=None):
    """All wallets of a contract agree with the reference."""
    M, K = CLS[net]
    red = ref.multisig_script(order, m)
    addr, seg = ref.p2sh_addr(red, net), ref.np2wsh_addr(red, net)
    for i in who if who is not None else range(len(secs)):
        k = K(lib.wif(secs[i], net, comp[i]))
        w = M(k, arg(), m)
        ctx.eq(w.address, addr, 'contract address of co-signer %d' % i)
        ctx.eq(w.redeemscript, red, 'redeem script')
        ctx.eq(w.segwit_address, seg if all(comp) else None, 'segwit contract address of co-signer %d' % i)
        ctx.step()
    if not isinstance(arg(), set):
        ctx.eq(multisig_to_address(order, m, net), addr, 'multisig_to_address')
        ctx.eq(multisig_to_segwit_address(order, m, net), seg, 'multisig_to_segwit_address')
        ctx.eq(multisig_to_redeemscript(order, m), red, 'multisig_to_redeemscript')
    ctx.outcome('contract')


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'key':
        for sec in secrets()[u['lo']:u['hi']]:
            for one in (sec, ref.N - sec):  # the mirrored key has the same x coordinate
                key(ctx, one)
            points(ctx, sec)
    elif T == 'zero':
        p = ref.point(u['lo'])
        g = ref.point(1)
        for s in range(u['lo'], u['hi']):
            x, y = p
            if x >> 248 == 0 or y >> 248 == 0 or x & 0xFF == 0 or y & 0xFF in (0, 1) or s % 50 == 0:
                ctx.case(('zero', s))
                points(ctx, s)
                for comp in (True, False):
                    pk = ref.pub(s, comp)
                    k = PrivateKey.from_int(s) if comp else PrivateKey(lib.wif(s, 'main', False))
                    ctx.eq(k.public_key, pk, 'public key')
                    ctx.eq(tuple(k.public_point), (x, y), 'public point')
                    ctx.eq(k.address, ref.p2pkh_addr(pk, 'main'), 'address')
                ctx.outcome('zero')
            p = ref._add(p, g)
    elif T == 'mn':
        n = u['n']
        secs = lib.SECRETS[:n]
        pubs = [lib.pubkey(s) for s in secs]
        for m in range(1, n + 1):
            for arg, order in ((lambda: list(pubs), pubs), (lambda: set(pubs), sorted(pubs)), (lambda: [p.hex() for p in pubs], pubs), (lambda: list(pubs[::-1]), pubs[::-1])):
                ctx.case((u['net'], m, n, type(arg()).__name__, order[0].hex()))
                contract(ctx, u['net'], m, secs, [True] * n, arg, order)
    elif T == 'unc':
        n = u['n']
        secs = lib.SECRETS[:n]
        for bits in itertools.product((True, False), repeat=n) if n <= 4 else [[i != j for i in range(n)] for j in range(n)] + [[False] * n]:
            pubs = [lib.pubkey(s, c) for s, c in zip(secs, bits)]
            if sum(len(p) + 1 for p in pubs) + 3 > 520:
                continue
            for m in range(1, n + 1):
                for arg, order in ((lambda: list(pubs), pubs), (lambda: set(pubs), sorted(pubs))):
                    ctx.case((u['net'], m, n, tuple(bits), type(arg()).__name__))
                    contract(ctx, u['net'], m, secs, list(bits), arg, order)
    elif T == 'perm':
        n = u['n']
        base = [2, 0, 5, 3][:n]
        for perm in itertools.permutations(base):
            secs = [lib.SECRETS[i] for i in perm]
            pubs = [lib.pubkey(s) for s in secs]
            for m in range(1, n + 1):
                for arg, order in ((lambda: list(pubs), pubs), (lambda: set(pubs), sorted(pubs))):
                    ctx.case((u['net'], m, perm, type(arg()).__name__))
                    contract(ctx, u['net'], m, secs, [True] * n, arg, order)
        # the caller's collection is left alone
        pubs = [lib.pubkey(lib.SECRETS[i]) for i in base]
        l = list(pubs)
        M, K = CLS[u['net']]
        M(K(lib.wif(lib.SECRETS[base[0]], u['net'], True)), l, 1)
        ctx.eq(l, pubs, "the caller's list")
    elif T == 'mirror':
        # contracts that differ in the sign of a key, its form, the order, m or the network, all in one process
        n = u['n']
        for perm in itertools.permutations(range(n)):
            for pick in itertools.product(((1, True), (-1, True), (1, False), (-1, False)), repeat=n):
                secs = [lib.SECRETS[i] if pick[i][0] > 0 else ref.N - lib.SECRETS[i] for i in perm]
                comp = [pick[i][1] for i in perm]
                pubs = [lib.pubkey(s, c) for s, c in zip(secs, comp)]
                for m in range(1, n + 1):
                    for net in ('main', 'test'):
                        for arg, order in ((lambda: list(pubs), pubs), (lambda: set(pubs), sorted(pubs)))[: 2 if n < 3 else 1]:
                            ctx.case(('mirror', n, perm, pick, m, net, type(arg()).__name__))
                            contract(ctx, net, m, secs, comp, arg, order, who=[0] if n > 2 else None)
    elif T == 'form':
        n = u['n']
        for idx in itertools.permutations((2, 0, 5, 3), n):
            for comp in itertools.product((True, False), repeat=n):
                secs = [lib.SECRETS[i] for i in idx]
                pubs = [lib.pubkey(s, c) for s, c in zip(secs, comp)]
                for forms in itertools.product('bhH', repeat=n):
                    given = [p if f == 'b' else p.hex() if f == 'h' else p.hex().upper() for p, f in zip(pubs, forms)]
                    mixed = 'b' in forms and set(forms) != {'b'}
                    for arg, order in ((lambda: list(given), pubs), (lambda: set(given), sorted(pubs))):
                        ctx.case((u['net'], idx, comp, forms, type(arg()).__name__))
                        contract(ctx, u['net'], n, secs, list(comp), arg, order)
    elif T == 'invalid':
        M, K = CLS[u['net']]
        other = CLS['test' if u['net'] == 'main' else 'main'][1]
        secs = lib.SECRETS[:16]
        pubs = [lib.pubkey(s) for s in secs]
        k = K(lib.wif(secs[0], u['net'], True))

        def refuse(what, f):
            ctx.case(('invalid', u['net'], what))
            try:
                f()
            except (ValueError, TypeError):
                ctx.outcome('refused')
            else:
                ctx.fail('an invalid contract was accepted: %s' % what)

        for n in range(1, 16):
            for m in [-3, -2, -1, 0] + list(range(n + 1, n + 4)) + [16, 17, 80, 255]:
                if m > n or m < 1:
                    refuse('%d-of-%d' % (m, n), lambda: M(k, pubs[:n], m))
                    refuse('%d-of-%d set' % (m, n), lambda: M(k, set(pubs[:n]), m))
                    refuse('%d-of-%d script' % (m, n), lambda: multisig_to_redeemscript(pubs[:n], m))
        refuse('16 keys', lambda: M(k, pubs, 2))
        refuse('8 uncompressed', lambda: M(K(lib.wif(secs[0], u['net'], False)), [lib.pubkey(s, False) for s in secs[:8]], 2))
        for n in range(0, 9):
            for c in range(0, 16):
                ps = [lib.pubkey(s, False) for s in secs[:n]] + [lib.pubkey(s) for s in secs[n:n + c]]
                size = 3 + sum(len(p) + 1 for p in ps)
                ctx.case(('size', u['net'], n, c))
                if n + c < 1 or n + c > 16:
                    continue
                kk = K(lib.wif(secs[0], u['net'], n == 0))
                try:
                    w = M(kk, ps, 1)
                    ok = True
                except ValueError:
                    ok = False
                ctx.eq(ok, size <= 520, 'contract of %d bytes accepted' % size)
                ctx.outcome('size ok' if ok else 'size refused')
        refuse('key not among them', lambda: M(k, pubs[1:4], 2))
        refuse('key in the other form', lambda: M(K(lib.wif(secs[0], u['net'], False)), pubs[:3], 2))
        refuse('no keys', lambda: M(k, [], 1))
        refuse('tuple', lambda: M(k, tuple(pubs[:3]), 2))
        refuse('private key of the other network', lambda: M(other(lib.wif(secs[0], u['net'], True)), pubs[:3], 2))
        for ln in list(range(0, 33)) + list(range(34, 65)) + [66, 70]:
            refuse('public key of %d bytes' % ln, lambda: M(k, [pubs[0], (pubs[1] * 3)[:ln]], 1))
            refuse('public key of %d bytes, script' % ln, lambda: multisig_to_redeemscript([pubs[0], (pubs[1] * 3)[:ln]], 1))
            refuse('address of %d bytes' % ln, lambda: public_key_to_address((pubs[1] * 3)[:ln], u['net']))
            refuse('segwit address of %d bytes' % ln, lambda: public_key_to_segwit_address((pubs[1] * 3)[:ln], u['net']))
            refuse('coordinates of %d bytes' % ln, lambda: public_key_to_coords((pubs[1] * 3)[:ln]))
        refuse('segwit address of an uncompressed key', lambda: public_key_to_segwit_address(lib.pubkey(secs[0], False), u['net']))
