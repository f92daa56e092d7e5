"""C29: key creation with the operating system's randomness scripted by the
harness: every bit of it, every out-of-range draw, every history."""
import contextlib
import hashlib
import io
import itertools
import os

import coincurve

from .. import env, lib, mpsim, refbtc as ref
from ..explorer import Violation, isolated
import bit
import bit.keygen
from bit import Key, MultiSig, MultiSigTestnet, PrivateKey, PrivateKeyTestnet

LEVEL = 'model_checking'
BOUNDS = ('every entry point that creates a key; every single-bit change of the randomness it draws (all bits of all bytes drawn); all sequences of up to 3 '
          '(thorough 4) draws over {1, n-1, n, n+1, 2^256-1, ordinary} before an ordinary one; all histories of up to 3 (thorough 4) creations and other calls; 3000 (thorough 30000) creations in a row per entry point; clock and ordinary generator fixed and varied')
ASSUMPTIONS = ['os.urandom is the source of unpredictability; everything else (clock, process id, the ordinary random generator) can be guessed',
               'a draw of 32 zero bytes may raise, as the secp256k1 binding does (probability 2^-256)']
TECHNIQUE = 'exhaustive enumeration of the randomness drawn, bit by bit, and of creation histories on the real code'


class Stream:
    """Scripted os.urandom: ``script`` blocks first, then ordinary bytes."""

    def __init__(self, tag, script=(), flip=None):
        self.tag, self.script, self.flip = tag, list(script), flip
        self.n = self.total = 0
        self.blocks = []

    def __call__(self, n):
        self.n += 1
        if self.n > 64:
            raise Violation('key creation keeps drawing randomness')
        if self.script and n == 32:
            b = self.script.pop(0)
        else:
            b = b''
            while len(b) < n:
                b += hashlib.sha512(('%s/%d/%d' % (self.tag, self.n, len(b))).encode()).digest()
            # ordinary: never near the group order
            b = bytes([b[0] & 0x7f]) + b[1:n] if n else b''
        if self.flip is not None:
            at, f = self.flip
            if self.total <= at < self.total + n:
                b = bytearray(b)
                b[at - self.total] = f(b[at - self.total])
                b = bytes(b)
        self.total += n
        self.blocks.append(b)
        return b


@contextlib.contextmanager
def scripted(stream):
    old = env.STATE.urandom
    env.STATE.urandom = stream
    env.STATE.guessable = True
    try:
        yield stream
    finally:
        env.STATE.urandom = old
        env.STATE.guessable = False


def pub(s):
    return coincurve.PublicKey.from_valid_secret(s.to_bytes(32, 'big')).format()


def wif_of(x):
    w = ref.b58cdec(x)
    if len(w) != 34 or w[:1] != b'\x80':
        raise Violation('the generator returns %r' % (x,))
    return int.from_bytes(w[1:33], 'big')


def pair():
    r = bit.keygen.generate_key_address_pair() if hasattr(bit.keygen, 'generate_key_address_pair') else bit.keygen.generate_matching_address('')
    return check_pair(r)


def check_pair(r):
    s = wif_of(r[0])
    if r[1] != ref.p2pkh_addr(pub(s), 'main'):
        raise Violation('the generated address %r does not belong to the key' % (r[1],))
    return s


def empty_prefix():
    return check_pair(bit.keygen.generate_matching_address(''))


def vanity():
    """One worker, a prefix that every address has."""
    K = mpsim.install_keeping(os.urandom)
    sim = mpsim.Sim()
    sim.cpus = 1
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m = sim.run(lambda: K.generate_matching_address('1', 1))
    for p in sim.procs:
        if p.error is not None:
            if isinstance(p.error, Violation):
                raise p.error
            raise Violation('%s raises %r' % (p.name, p.error))
    w = [x for x in out.getvalue().split() if len(x) in (51, 52)]
    if len(w) != 1:
        raise Violation('the generator printed %r' % out.getvalue())
    return wif_of(w[0])


def wrap(f, net='main'):
    def make():
        k = f()
        s = int.from_bytes(k.to_bytes(), 'big')
        if not 0 < s < ref.N:
            raise Violation('the new key is out of range: %x' % s)
        if k.public_key != pub(s):
            raise Violation('the new key is not compressed or its public key is wrong')
        if k.address != ref.p2pkh_addr(k.public_key, net):
            raise Violation('the new key has the wrong address')
        return s

    return make


ENTRIES = {'Key': wrap(lambda: Key()), 'PrivateKey': wrap(lambda: PrivateKey()), 'PrivateKeyTestnet': wrap(lambda: PrivateKeyTestnet(), 'test'), 'None': wrap(lambda: Key(None)),
           'kw': wrap(lambda: PrivateKeyTestnet(wif=None), 'test'), 'pair': pair, 'empty': empty_prefix, 'vanity': vanity}
OTHER = ['import', 'sign', 'build', 'later', 'addresses', 'eq', 'multisig']


def other(o):
    if o == 'import':
        Key(lib.wif(lib.SECRETS[1], 'main', True))
        PrivateKeyTestnet.from_int(lib.SECRETS[4])
    elif o == 'sign':
        lib.key_wallet('main').obj.sign(b'data')
    elif o == 'build':
        w = lib.key_wallet('main')
        w.obj.create_transaction([(lib.dests('main')[0], 1000, 'satoshi')], fee=1, unspents=[w.coin('L', 50000, 0), w.coin('S', 60000, 1)], combine=False)
    elif o == 'later':
        env.STATE.now += 1000
    elif o == 'addresses':
        lib.key_wallet('test').obj.segwit_address
    elif o == 'eq':
        lib.key_wallet('main').obj == lib.key_wallet('test').obj
    elif o == 'multisig':
        lib.multi_wallets('main', 2, lib.SECRETS[:3])[0].obj.address


SPECIAL = {'1': 1, 'n-1': ref.N - 1, 'n': ref.N, 'n+1': ref.N + 1, 'max': 2**256 - 1, 'ord': int.from_bytes(hashlib.sha256(b'ord').digest(), 'big') >> 1}


def units(tier):
    us = [{'t': 'bits', 'e': e, 'now': now} for e in ENTRIES for now in (1_700_000_000.0, 0.0)]
    us += [{'t': 'range', 'e': e, 'L': 3 if tier == 'quick' else 4} for e in ENTRIES]
    names = list(ENTRIES)
    for a in names:
        us.append({'t': 'hist', 'a': a, 'L': 3 if tier == 'quick' else 4})
    for e in names + ['mixed']:
        us.append({'t': 'long', 'e': e, 'n': (40 if e == 'vanity' else 3000) * (1 if tier == 'quick' else 10)})
    return us


def create(e, stream):
    with scripted(stream):
        return ENTRIES[e]()


def run_unit(ctx, u):
    env.reset()
    {'bits': bits, 'range': ranges, 'hist': hist, 'long': long}[u['t']](ctx, u)


def bits(ctx, u):
    """How many bits of what was drawn does the key depend on?"""
    e = u['e']

    def one(flip):
        env.STATE.now = u['now']
        st = Stream('bits', flip=flip)
        return create(e, st), st

    def run(flip):
        s, st = isolated(lambda: (lambda r: (r[0], r[1].total))(one(flip)))
        return s, st

    base, total = run(None)
    ctx.case((e, 'base', u['now']))
    ctx.check(total >= 32, '%s draws only %d bytes of the system\'s randomness for a new key' % (e, total))
    ctx.check(0 < base < ref.N, 'new key out of range')
    seen = {base: 'the unchanged draw'}
    sensitive = 0
    for at in range(total):
        for k in range(8):
            ctx.case((e, at, k, u['now']))
            s, _ = run((at, lambda x: x ^ (1 << k)))
            if s != base:
                sensitive += 1
                if s in seen:
                    raise Violation('%s: changing bit %d of byte %d gives the same key as %s' % (e, k, at, seen[s]))
                seen[s] = 'bit %d of byte %d' % (k, at)
    ctx.check(sensitive >= 256, '%s: the new key depends on only %d bits of the system\'s randomness' % (e, sensitive))
    ctx.outcome('%s depends on %d bits' % (e, sensitive))


def ranges(ctx, u):
    for L in range(0, u['L'] + 1):
        for seq in itertools.product(SPECIAL, repeat=L):
            ctx.case((u['e'], seq))

            def go():
                st = Stream('range', [SPECIAL[x].to_bytes(32, 'big') for x in seq])
                return create(u['e'], st), st.n

            s, n = isolated(go)
            ctx.step(n)
            ctx.check(0 < s < ref.N, 'draws %r give the key %x, which is out of range' % (seq, s))
            ok = [SPECIAL[x] for x in seq if 0 < SPECIAL[x] < ref.N]
            ctx.outcome('special draw used' if s in ok else 'ordinary draw used')
            if s == ref.N - 1 or s == 1:
                ctx.outcome('boundary key')


def hist(ctx, u):
    """Every creation in a history draws its own randomness."""
    names = list(ENTRIES)
    fast = [n for n in names if n != 'vanity']
    for rest in itertools.product(fast + OTHER, repeat=u['L'] - 1):
        ops = (u['a'],) + rest
        if sum(1 for o in ops if o in ENTRIES) < 2:
            continue
        ctx.case(('history', ops))

        def go():
            st = Stream('hist')
            keys = []
            with scripted(st):
                for o in ops:
                    if o in ENTRIES:
                        before = st.total
                        s = ENTRIES[o]()
                        keys.append((o, s, st.total - before))
                    else:
                        other(o)
            return keys

        keys = isolated(go)
        ctx.step(len(ops))
        vals = [s for _, s, _ in keys]
        ctx.check(len(set(vals)) == len(vals), 'in the history %r two new keys are the same' % (ops,))
        for o, s, n in keys:
            ctx.check(n >= 32, 'in the history %r, %s draws %d fresh bytes for its key' % (ops, o, n))
        for s in lib.SECRETS:
            ctx.check(s not in vals, 'a new key equals a key in use')
        ctx.outcome('%d new keys' % len(keys))


def long(ctx, u):
    """Many creations in one process, with two different supplies of
    randomness: all the keys are different, and each drew its own bytes."""
    names = [n for n in ENTRIES if n != 'vanity']
    seen = {}
    for run in (0, 1):
        st = Stream('long%d' % run)
        with scripted(st):
            for i in range(u['n']):
                e = names[i % len(names)] if u['e'] == 'mixed' else u['e']
                ctx.case((u['e'], run, i))
                st.tag, st.n = 'long%d/%d' % (run, i), 0
                del st.blocks[:]
                before = st.total
                s = ENTRIES[e]()
                if u['e'] == 'mixed' and i % 5 == 0:
                    env.STATE.now += 7
                ctx.check(st.total - before >= 32, 'creation %d (%s) draws %d fresh bytes for its key' % (i, e, st.total - before))
                ctx.check(s not in seen, 'creation %d gives the same key as creation %s' % (i, seen.get(s)))
                seen[s] = (run, i)
    ctx.outcome('long histories')
