"""C31: every signature against an independent RFC 6979 signer."""
import hashlib
import hmac
import itertools

import coincurve

from .. import env, harvest, lib, refbtc as ref
from ..build import KEYS, finish, sign_all, unsigned_hex, wallet_set
from ..explorer import Violation, isolated
from bit import Key, PrivateKey, PrivateKeyTestnet, wif_to_key

LEVEL = 'model_checking'
BOUNDS = ('24 secrets (boundary ones included) x {main, test} x {compressed, uncompressed} x every way of making the wallet; messages: every length 0..1100 and powers of 2 and 10 (+-1) to '
          '2^20, every single byte; 3000 signatures in a row; transactions: all input-kind sequences up to 4 (thorough 6) of every wallet kind and entry point, every multisig shape to 3-of-4; all histories of up to 3 (thorough 4) signing and other calls')
ASSUMPTIONS = ['scalar multiplication of libsecp256k1 is correct (used for r)']
TECHNIQUE = 'exhaustive enumeration of keys, messages, transactions and signing histories on the real code against an independent RFC 6979 signer'

MS = [('ms', 'main', 1, 1, -1, False), ('ms', 'test', 1, 2, -1, False), ('ms', 'main', 2, 2, -1, True), ('ms', 'test', 2, 3, -1, False), ('ms', 'main', 2, 3, 1, False), ('ms', 'main', 3, 4, -1, False)]


def rfc6979(secret, digest):
    """Deterministic low-S signature (r, s) over a 32-byte digest."""
    x = secret.to_bytes(32, 'big')
    h1 = (int.from_bytes(digest, 'big') % ref.N).to_bytes(32, 'big')
    V, K = b'\1' * 32, b'\0' * 32
    mac = lambda k, m: hmac.new(k, m, hashlib.sha256).digest()
    K = mac(K, V + b'\0' + x + h1)
    V = mac(K, V)
    K = mac(K, V + b'\1' + x + h1)
    V = mac(K, V)
    while True:
        V = mac(K, V)
        k = int.from_bytes(V, 'big')
        if 0 < k < ref.N:
            r = int.from_bytes(coincurve.PublicKey.from_valid_secret(V).format(False)[1:33], 'big') % ref.N
            if r:
                s = pow(k, -1, ref.N) * (int.from_bytes(digest, 'big') + r * secret) % ref.N
                if s:
                    return r, min(s, ref.N - s)
        K = mac(K, V + b'\0')
        V = mac(K, V)


def der(r, s):
    def i(n):
        b = n.to_bytes((n.bit_length() + 8) // 8, 'big')
        return b'\2' + bytes([len(b)]) + b

    c = i(r) + i(s)
    return b'0' + bytes([len(c)]) + c


def expected(secret, digest):
    return der(*rfc6979(secret, digest))


def messages():
    ms = [bytes([i & 255 for i in range(n)]) for n in range(0, 301)]
    ms += [bytes([b]) for b in range(256)] + [b'\0' * n for n in (2, 31, 32, 33, 55, 56, 63, 64, 65)] + [b'x' * n for n in range(301, 1101)]
    ms += [b'y' * (2**k + d) for k in range(10, 21) for d in (-1, 0, 1)] + [b'z' * 10**k for k in (3, 4, 5, 6)]
    ms += [hashlib.sha256(b'%d' % i).digest() for i in range(40)]
    return ms


def makers(secret):
    """Every way a wallet for the secret can come into being."""
    b = secret.to_bytes(32, 'big')
    for net, cls in (('main', PrivateKey), ('test', PrivateKeyTestnet)):
        for comp in (True, False):
            w = lib.wif(secret, net, comp)
            yield (net, comp, 'wif'), lambda cls=cls, w=w: cls(w)
            yield (net, comp, 'wif_to_key'), lambda w=w: wif_to_key(w)
        yield (net, 'hex'), lambda cls=cls: cls.from_hex(b.hex())
        yield (net, 'bytes'), lambda cls=cls: cls.from_bytes(b)
        yield (net, 'int'), lambda cls=cls: cls.from_int(secret)
        yield (net, 'der'), lambda cls=cls: cls.from_der(coincurve.PrivateKey(b).to_der())
        yield (net, 'pem'), lambda cls=cls: cls.from_pem(coincurve.PrivateKey(b).to_pem())


def units(tier):
    us = [{'t': 'msg', 's': s} for s in range(len(lib.SECRETS))]
    us += [{'t': 'make', 's': list(range(i, len(lib.SECRETS), 6))} for i in range(6)]
    L = 4 if tier == 'quick' else 6
    for w in KEYS + MS:
        for e in ('create', 'prepare', 'raw'):
            us.append({'t': 'tx', 'w': w, 'e': e, 'L': L if w[0] == 'key' else L - 1})
    us += [{'t': 'hist', 'a': a, 'L': 3 if tier == 'quick' else 4} for a in range(len(OPS))]
    us += [{'t': 'batch'}] + [{'t': 'long', 'net': n, 'n': 3000 if tier == 'quick' else 30000} for n in ('main', 'test')]
    return us


def run_unit(ctx, u):
    env.reset()
    {'msg': msg, 'make': make, 'tx': tx, 'hist': hist, 'batch': batch, 'long': long}[u['t']](ctx, u)


def msg(ctx, u):
    sec = lib.SECRETS[u['s']]
    k = PrivateKey(lib.wif(sec, 'main', True))
    nonces = {}
    for m in messages():
        ctx.case(('message', u['s'], hashlib.sha256(m).hexdigest()))
        d = ref.sha(m)
        want = expected(sec, d)
        got = k.sign(m)
        ctx.eq(got.hex(), want.hex(), 'signature over %d bytes' % len(m))
        r = rfc6979(sec, d)[0]
        ctx.check(nonces.setdefault(r, m) == m, 'nonce used twice')
        ctx.eq(k.sign(bytes(m)).hex(), want.hex(), 'second signature over the same data')
    ctx.outcome('message signatures')


def make(ctx, u):
    for si in u['s']:
        sec = lib.SECRETS[si]
        for name, f in makers(sec):
            k = f()
            for m in (b'', b'abc', b'\xff' * 64):
                ctx.case(('made', si, name, m))
                ctx.eq(k.sign(m).hex(), expected(sec, ref.sha(m)).hex(), 'signature of a key made by %r' % (name,))
    ctx.outcome('made')


class Watch:
    """Collects what every signature of a transaction signs, with the help of
    the reference interpreter, and compares with the expected signature."""

    def __init__(self, ctx, secrets):
        self.ctx = ctx
        self.by_pub = {}
        for s in secrets:
            for c in (True, False):
                self.by_pub[lib.pubkey(s, c)] = s
        self.nonces = {}

    def tx(self, hx, coins, what):
        seen = []
        real = ref.verify

        def verify(pk, digest, sig):
            ok = real(pk, digest, sig)
            if ok:
                seen.append((pk, digest, sig))
            return ok

        ref.verify = verify
        try:
            t = ref.check_tx(hx, lib.chain(coins))
        except ref.Invalid as e:
            raise Violation('%s: the network would reject the transaction: %s' % (what, e), tx=hx)
        finally:
            ref.verify = real
        self.ctx.check(len(seen) >= len(t.ins), 'fewer signatures than inputs')
        for pk, digest, sig in seen:
            sec = self.by_pub.get(pk)
            self.ctx.check(sec is not None, 'unknown signer')
            self.ctx.eq(sig[:-1].hex(), expected(sec, digest).hex(), '%s: signature of an input' % what)
            r = rfc6979(sec, digest)[0]
            self.ctx.check(self.nonces.setdefault(r, (sec, digest)) == (sec, digest), 'nonce used twice')
        return len(seen)


def tx(ctx, u):
    ws = wallet_set(u['w'])
    W = Watch(ctx, lib.SECRETS)
    d = lib.dests(ws[0].net)
    kinds = ws[0].kinds
    for n in range(1, u['L'] + 1):
        for ks in itertools.product(kinds, repeat=n):
            coins = [ws[0].coin(k, 50000 + 1000 * i, i, index=i) for i, k in enumerate(ks)]
            for nout in (1, 2):
                ctx.case((u['w'], u['e'], ''.join(ks), nout))
                outs = [(d[(i + n) % len(d)], 6000 + i, 'satoshi') for i in range(nout)]
                hx = sign_all(ws, coins, outs, u['e'], fee=1000, absolute_fee=True)
                ctx.step(W.tx(hx, coins, '%s %s' % (u['w'], u['e'])))
    ctx.outcome('%s signatures' % u['w'][0])


def batch(ctx, u):
    """Several owners sign one transaction, in every order."""
    W = Watch(ctx, lib.SECRETS)
    ws = [lib.key_wallet('main', True, lib.SECRETS[0]), lib.key_wallet('main', False, lib.SECRETS[1]), lib.key_wallet('main', True, lib.SECRETS[4])]
    for ks in itertools.product('LS', repeat=3):
        if ks[1] == 'S':
            continue
        coins = [w.coin(k, 40000 + i, i) for i, (w, k) in enumerate(zip(ws, ks))]
        raw = unsigned_hex(coins, [(lib.dests('main')[0], 100000)])
        for order in itertools.permutations(range(3)):
            ctx.case((ks, order))
            t = raw
            for i in order:
                t = ws[i].obj.sign_transaction(t, unspents=[coins[i]])
            ctx.step(W.tx(t, coins, 'batch'))
    ctx.outcome('batch')


def long(ctx, u):
    """Many signatures in a row by one key, old data coming back."""
    w = lib.key_wallet(u['net'], True, lib.SECRETS[0])
    for i in range(u['n']):
        m = b'%d' % (i if i % 3 else i // 2)
        ctx.case(('long', u['net'], i))
        ctx.eq(w.obj.sign(m).hex(), expected(lib.SECRETS[0], ref.sha(m)).hex(), 'signature number %d' % i)
    ctx.outcome('long')


# ---- histories: what ran before never changes a signature
OPS = ['sign a', 'sign b', 'sign other', 'tx', 'tx segwit', 'tx multisig', 'new key', 'verify', 'fail', 'later']


def hist(ctx, u):
    for rest in itertools.product(range(len(OPS)), repeat=u['L'] - 1):
        ops = [OPS[i] for i in (u['a'],) + rest]
        ctx.case(('history', tuple(ops)))
        history(ctx, ops)
        ctx.step(len(ops))
    ctx.outcome('histories')


def history(ctx, ops):
    env.reset()
    w = lib.key_wallet('main', True, lib.SECRETS[0])
    o = lib.key_wallet('test', True, lib.SECRETS[1])
    ms = wallet_set(('ms', 'main', 2, 2, -1, False))
    W = Watch(ctx, lib.SECRETS)
    d = lib.dests('main')[0]

    def step(op):
        if op in ('sign a', 'sign b'):
            ctx.eq(w.obj.sign(op.encode()).hex(), expected(lib.SECRETS[0], ref.sha(op.encode())).hex(), 'after %r: signature over data' % (ops,))
        elif op == 'sign other':
            ctx.eq(o.obj.sign(b'sign a').hex(), expected(lib.SECRETS[1], ref.sha(b'sign a')).hex(), 'after %r: signature of another key' % (ops,))
        elif op in ('tx', 'tx segwit'):
            coins = [w.coin('L' if op == 'tx' else 'S', 50000, 0), w.coin('S', 60000, 1)]
            W.tx(w.obj.create_transaction([(d, 9000, 'satoshi')], fee=500, absolute_fee=True, unspents=coins), coins, 'after %r' % (ops,))
        elif op == 'tx multisig':
            coins = [ms[0].coin('L', 50000, 0)]
            W.tx(sign_all(ms, coins, [(d, 9000, 'satoshi')], fee=500, absolute_fee=True), coins, 'after %r' % (ops,))
        elif op == 'new key':
            Key().sign(b'sign a')
        elif op == 'verify':
            w.obj.verify(w.obj.sign(b'x'), b'y')
        elif op == 'fail':
            try:
                w.obj.create_transaction([(d, 10**9, 'satoshi')], fee=1, unspents=[w.coin('L', 5000, 0)])
            except Exception:
                pass
        else:
            env.STATE.now += 3600

    for op in ops:
        step(op)
    step('sign a')
    step('tx segwit')
