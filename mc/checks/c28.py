"""C28: everything that leaves a wallet, searched for its private key."""
import base64
import io
import itertools
import logging
import os
import re
import sys
import urllib.parse
import warnings

from .. import env, fakenet, lib, netlib, refbtc as ref
from ..explorer import Violation, explore, isolated
from ..netlib import NETS, RX
import bit
from bit import Key, PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet, wif_to_key
from bit.format import verify_sig
from bit.network import NetworkAPI
from bit.network.meta import Unspent

LEVEL = 'model_checking'
RULE = 'an execution is one sequence of wallet calls under one pattern of service and node failures, with every output channel searched; distinct by (wallet, calls, failures met)'
BOUNDS = ('9 wallets (key main/test x compressed/uncompressed, multisig 1-of-2, 2-of-2, 2-of-3 on both networks); ~40 calls each (queries, building, preparing, co-signing, sending, printing, comparing, '
          'invalid arguments); every call under every single fault at every request and every pair of faults of a 4-fault alphabet (thorough: pairs of the full alphabet), with a public service or a node; '
          'import of key texts of all 256 versions and of impossible lengths and values; all sequences of 2 calls (thorough 3) with everything up and with everything down')
ASSUMPTIONS = ['the process environment, core dumps and memory are outside the property', 'an error about malformed key text may repeat the text the caller passed']
TECHNIQUE = 'exhaustive exploration of call sequences and failures on the real code with a taint monitor on every output channel'

KEYS = [lib.SECRETS[0], lib.SECRETS[1], lib.SECRETS[4]]


# ------------------------------------------------------------------ the monitor
class Needles:
    """All the spellings of the secrets, and of every 8-byte stretch of them."""

    def __init__(self, secrets):
        self.raw, self.txt = set(), set()
        for s in secrets:
            b = s.to_bytes(32, 'big')
            for x in (b, b[::-1]):
                for i in range(25):
                    w = x[i:i + 8]
                    self.raw.add(w)
                    self.txt.add(w.hex())
                    self.txt.add(repr(w)[2:-1].lower())
                    self.txt.add(', '.join(map(str, w)))
                    self.txt.add(','.join(map(str, w)))
                    for pad in (b'', b'\0', b'\0\0'):
                        e = base64.b64encode(pad + w).decode()
                        self.txt.add(e[len(pad) * 4 // 3 + (1 if pad else 0):-4].lower())
            for n in (s, int.from_bytes(b[::-1], 'big')):
                d = str(n)
                self.txt |= {d[i:i + 20] for i in range(len(d) - 19)}
                o, bi = oct(n)[2:], bin(n)[2:]
                self.txt |= {o[i:i + 24] for i in range(len(o) - 23)} | {bi[i:i + 64] for i in range(len(bi) - 63)}
            for net in NETS:
                for c in (True, False):
                    w = lib.wif(s, net, c)
                    self.txt |= {w[i:i + 12].lower() for i in range(2, len(w) - 11)}
        self.txt = {t for t in self.txt if len(t) >= 8}
        self.heads = {}
        for t in self.txt:
            self.heads.setdefault(t[:8], []).append(t)
        self.clean = set()

    def text_hit(self, t):
        heads = self.heads
        for i in range(len(t) - 7):
            c = t[i:i + 8]
            if c in heads:
                for n in heads[c]:
                    if t.startswith(n, i):
                        return n
        return None

    def raw_hit(self, b):
        raw = self.raw
        for i in range(len(b) - 7):
            if b[i:i + 8] in raw:
                return b[i:i + 8].hex()
        return None

    def find(self, x):
        if x in self.clean:
            return None
        f = self.find_bytes(x) if isinstance(x, bytes) else self.find_text(x)
        if not f and len(self.clean) < 200000:
            self.clean.add(x)
        return f

    def find_bytes(self, b):
        return self.raw_hit(b) or self.find_text(b.decode('latin1'), False)

    def find_text(self, t, deep=True):
        f = self.text_hit(t.lower())
        if f or not deep:
            return f
        if '%' in t:
            f = self.find_bytes(urllib.parse.unquote_to_bytes(t))
            if f:
                return f
        for run in re.findall(r'[0-9a-fA-F]{16,}', t):
            for k in (0, 1):
                x = run[k:]
                b = bytes.fromhex(x[:len(x) // 2 * 2])
                f = self.raw_hit(b)
                if f:
                    return f
        for run in re.findall(r'[0-9A-Za-z+/_-]{11,}={0,2}', t):
            body = run.rstrip('=').replace('-', '+').replace('_', '/')
            for k in range(4):
                x = body[k:]
                x = x[:len(x) // 4 * 4] if len(x) % 4 == 1 else x + '=' * (-len(x) % 4)
                try:
                    b = base64.b64decode(x)
                except ValueError:
                    continue
                f = self.find_bytes(b)
                if f:
                    return f
        return None


def texts(x, depth=0):
    """Everything printable or readable in a returned value."""
    if x is None or isinstance(x, (bool, float)):
        return
    if isinstance(x, (bytes, bytearray)):
        yield bytes(x)
    elif isinstance(x, str):
        yield x
    elif isinstance(x, int):
        yield str(x)
        if x > 1 << 60:
            yield '%x' % x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from texts(k, depth)
            yield from texts(v, depth)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for v in x:
            yield from texts(v, depth)
    else:
        yield repr(x)
        yield str(x)
        yield '%s' % (x,)
        yield '{}'.format(x)
        if depth < 3 and type(x).__module__.startswith('bit.') and not hasattr(x, '_pk') and type(x).__name__ not in ('MultiSig', 'MultiSigTestnet'):
            names = list(getattr(x, '__dict__', {})) + [s for s in getattr(type(x), '__slots__', ())]
            for n in names:
                yield from texts(getattr(x, n, None), depth + 1)


def exc_texts(e, seen=()):
    while e is not None and e not in seen:
        yield str(e)
        yield repr(e)
        for n in getattr(e, '__notes__', ()) or ():
            yield str(n)
        yield from texts(list(e.args))
        yield from texts({k: v for k, v in vars(e).items() if k not in ('request', 'response')})
        seen = seen + (e,)
        for nxt in (e.__cause__, e.__context__):
            if nxt is not None:
                yield from exc_texts(nxt, seen)
        return


class Tap(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.out = []

    def emit(self, r):
        try:
            self.out.append(r.getMessage())
        except Exception:
            self.out.append('%s %r' % (r.msg, r.args))
        if r.exc_info and r.exc_info[1] is not None:
            self.out += list(exc_texts(r.exc_info[1]))


TAP = Tap()
ACTIVE = [None]
_OPENS = ('open', 'os.rename', 'os.mkdir', 'os.putenv')


def _audit(ev, args):
    box = ACTIVE[0]
    if box is None:
        return
    if ev == 'open':
        path, mode, flags = (args + (None, None))[:3]
        w = isinstance(mode, str) and any(c in mode for c in 'wax+') or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if w and isinstance(path, (str, bytes)):
            box.append(('file', path))
        elif isinstance(path, (str, bytes)):
            box.append(('path', path))
    elif ev in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'socket.connect', 'socket.sendto', 'socket.sendmsg', 'socket.getaddrinfo', 'socket.gethostbyname', 'os.putenv', 'syslog.syslog',
                'os.mkdir', 'os.rename', 'os.symlink', 'os.link', 'urllib.Request', 'http.client.send', 'http.client.connect', 'smtplib.send', 'ftplib.sendcmd', 'sqlite3.connect'):
        box.append((ev, args))


sys.addaudithook(_audit)


class Watch:
    """Runs calls and searches every channel."""

    def __init__(self, ctx, secrets):
        self.ctx, self.n = ctx, Needles(secrets)
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        root.setLevel(0)
        root.handlers[:] = [TAP]

    def look(self, channel, items, what):
        for x in items:
            f = self.n.find(x)
            if f:
                raise Violation('the private key appears in %s of %s: found %r' % (channel, what, f), text=x[:500])

    def run(self, what, f, export_errors=False):
        """The result of f(), or None when it raised."""
        TAP.out.clear()
        n0 = len(env.NET.log)
        ev = []
        so, se = sys.stdout, sys.stderr
        bo, be = io.StringIO(), io.StringIO()
        bo.buffer = io.BytesIO()
        be.buffer = io.BytesIO()
        err = res = None
        sys.stdout, sys.stderr = bo, be
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            ACTIVE[0] = ev
            try:
                res = f()
            except Violation:
                raise
            except Exception as e:
                err = e
            finally:
                ACTIVE[0] = None
                sys.stdout, sys.stderr = so, se
        self.ctx.step()
        self.look('the console output', [bo.getvalue(), be.getvalue(), bo.buffer.getvalue(), be.buffer.getvalue()], what)
        self.look('the log output', TAP.out, what)
        self.look('a warning', [str(w.message) for w in ws], what)
        for q in env.NET.log[n0:]:
            body = q.body if q.body is not None else ''
            if not isinstance(body, (str, bytes)):
                body = str(body)
            self.look('the request %s' % q.host, [q.url, body] + [str(x) for kv in q.headers.items() for x in kv], what)
        for e, a in ev:
            if e == 'file':
                try:
                    self.look('a file name', [a if isinstance(a, bytes) else str(a)], what)
                    with open(a, 'rb') as fh:
                        self.look('a file', [fh.read(1 << 20)], what)
                except OSError:
                    pass
            else:
                self.look('a system call (%s)' % e, list(texts(a if isinstance(a, (str, bytes, tuple)) else str(a))), what)
        if err is not None:
            self.look('the error', exc_texts(err), what)
            return None, err
        self.look('the result', texts(res), what)
        return res, None


# -------------------------------------------------------------------- the calls
class Subject:
    def __init__(self, kind, net):
        self.kind, self.net = kind, net
        other = 'test' if net == 'main' else 'main'
        if kind in ('c', 'u'):
            self.ws = [lib.key_wallet(net, kind == 'c', KEYS[0])]
        else:
            m, n = int(kind[0]), int(kind[1])
            self.ws = lib.multi_wallets(net, m, KEYS[:n])
        self.w = self.ws[0]
        self.o = self.w.obj
        self.d = lib.dests(net)[0]
        self.bad = lib.dests(other)[0]
        self.ms = len(self.ws) > 1
        self.secrets = KEYS[:max(1, len(self.ws))]
        self.other = lib.key_wallet(other, True, KEYS[0]).obj
        self.coins = [self.w.coin('L', 50000, 0)] + ([self.w.coin('S', 60000, 1)] if self.w.seg_script else [])

    def calls(self):
        o, d, w, S = self.o, self.d, self.w, self
        cls = type(o)
        out1 = [(d, 1000, 'satoshi')]
        pay = lambda **k: (lambda: o.create_transaction(**dict(dict(outputs=out1, fee=2), **k)))
        c = {
            'address': lambda: (o.address, o.segwit_address),
            'scripts': lambda: (o.scriptcode, o.segwit_scriptcode, [o.can_sign_unspent(u) for u in S.coins]),
            'attributes': lambda: (o.version, o.instance, o.balance, o.unspents, o.transactions, o.public_key),
            'print': lambda: (repr(o), str(o), '%s %r' % (o, o), '{0} {0!r} {0!s}'.format(o), f'{o}', repr([o]), repr({'a': o}), ascii(o), repr(type(o)), repr((o,))),
            'console': lambda: (print(o), print([o]), print(o, file=sys.stderr)) and None,
            'log': lambda: logging.info('wallet %s %r', o, o),
            'balance': lambda: o.get_balance(),
            'balance usd': lambda: o.get_balance('usd'),
            'balance xyz': lambda: o.get_balance('xyz'),
            'as eur': lambda: o.balance_as('eur'),
            'coins': lambda: o.get_unspents(),
            'history': lambda: o.get_transactions(),
            'create': pay(),
            'create own coins': pay(unspents=S.coins),
            'create no fee': pay(fee=None),
            'create usd': pay(outputs=[(d, 1, 'usd')]),
            'create message': pay(message='hello', unspents=S.coins),
            'create poor': pay(outputs=[(d, 10**12, 'satoshi')]),
            'create wrong net': pay(outputs=[(self.bad, 1000, 'satoshi')], unspents=S.coins),
            'create bad address': pay(outputs=[('nonsense', 1000, 'satoshi')], unspents=S.coins),
            'create bad amount': pay(outputs=[(d, 'many', 'satoshi')], unspents=S.coins),
            'create bad currency': pay(outputs=[(d, 1, 'xyz')], unspents=S.coins),
            'create change elsewhere': pay(leftover=d, unspents=S.coins),
            'create bad change': pay(leftover='x', unspents=S.coins),
            'create rbf': pay(replace_by_fee=True, unspents=S.coins),
            'create foreign coin': pay(unspents=[Unspent(5000, 1, '76a914' + '11' * 20 + '88ac', '22' * 32, 0)]),
            'prepare': lambda: cls.prepare_transaction(o.address, out1),
            'prepare coins': lambda: cls.prepare_transaction(o.address, out1, unspents=S.coins, fee=3),
            'prepare bad': lambda: cls.prepare_transaction('x', out1),
            'sign raw': lambda: o.sign_transaction(S.unsigned(), unspents=S.coins),
            'sign fetch': lambda: o.sign_transaction(S.unsigned()),
            'sign garbage': lambda: o.sign_transaction('zz'),
            'sign garbage json': lambda: o.sign_transaction('{"unspents": 3}'),
            'sign truncated': lambda: o.sign_transaction(S.unsigned()[:-20], unspents=S.coins),
            'sign no coins': lambda: o.sign_transaction(S.unsigned(), unspents=[]),
            'equal other': lambda: o == 5,
            'unequal': lambda: o != self.other,
            'in list': lambda: o in [1, 2],
            'hash': lambda: hash(o),
            'compare': lambda: o < 1,
            'no such': lambda: o.nothing_here,
            'call': lambda: o(),
            'verify sig': lambda: verify_sig(b'\x30\x06', b'x', o.public_key),
            'dir': lambda: dir(o),
            'bytes': lambda: format(o, '>10'),
            'json': lambda: __import__('json').dumps({'a': o}),
            'int': lambda: __import__('json').dumps({'a': o.address, 'b': o.balance, 'c': o.transactions}),
            'bool': lambda: bool(o),
        }
        if S.ms:
            c['cosign'] = lambda: [S.cosign(w2) for w2 in S.ws]
            c['redeem'] = lambda: (o.redeemscript, o.public_keys, o.m)
            k = PrivateKey if S.net == 'main' else PrivateKeyTestnet
            c['bad contract'] = lambda: cls(k(lib.wif(KEYS[0], S.net, True)), [lib.pubkey(lib.SECRETS[8]), lib.pubkey(lib.SECRETS[9])], 1)
            c['bad m'] = lambda: cls(k(lib.wif(KEYS[0], S.net, True)), [lib.pubkey(KEYS[0]), lib.pubkey(lib.SECRETS[9])], 3)
            c['bad keys'] = lambda: cls(k(lib.wif(KEYS[0], S.net, True)), [lib.pubkey(KEYS[0]), b'\x02\x03'], 1)
            c['bad key kind'] = lambda: cls(k(lib.wif(KEYS[0], S.net, True)), 7, 1)
            c['prepared and signed'] = lambda: o.sign_transaction(cls.prepare_transaction(o.address, out1, unspents=S.coins, fee=2))
        else:
            c.update({
                'sign': lambda: o.sign(b'some data'),
                'sign long': lambda: o.sign(b'x' * 500),
                'sign bad': lambda: o.sign('text'),
                'verify': lambda: o.verify(o.sign(b'data'), b'data'),
                'verify bad': lambda: o.verify(b'\x30', b'data'),
                'verify false': lambda: o.verify(o.sign(b'data'), b'other'),
                'point': lambda: (o.public_point, o.public_key, o.pub_to_hex(), o.is_compressed()),
                'equal': lambda: o == self.other,
                'send': lambda: o.send(out1, fee=2),
                'send no fee': lambda: o.send(out1),
                'send coins': lambda: o.send(out1, fee=2, unspents=S.coins),
                'send poor': lambda: o.send([(d, 10**12, 'satoshi')]),
                'send bad': lambda: o.send([('x', 1, 'satoshi')]),
                'send eur': lambda: o.send([(d, 2, 'eur')], fee=2),
                'prepared and signed': lambda: o.sign_transaction(cls.prepare_transaction(o.address, out1, compressed=S.kind == 'c', unspents=S.coins, fee=2)),
                'import text': lambda: cls(lib.wif(KEYS[0], S.net, S.kind == 'c')),
                'import other net': lambda: cls(self.other.to_wif()),
                'import wrong kind': lambda: cls(KEYS[0].to_bytes(32, 'big') and 7),
                'import any': lambda: wif_to_key(lib.wif(KEYS[0], S.net, S.kind == 'c')),
                'import hex': lambda: cls.from_hex(KEYS[0].to_bytes(32, 'big').hex()),
                'import bytes': lambda: cls.from_bytes(KEYS[0].to_bytes(32, 'big')),
                'import int': lambda: cls.from_int(KEYS[0]),
                'import der': lambda: cls.from_der(S.o.to_der()),
                'import pem': lambda: cls.from_pem(S.o.to_pem()),
                'exports': lambda: (o.to_wif(), o.to_hex(), o.to_bytes(), o.to_int(), o.to_der(), o.to_pem()) and None,
            })
        return c

    def unsigned(self):
        from ..build import unsigned_hex

        return unsigned_hex([(u.txid, u.txindex) for u in self.coins], [(lib.spk(self.d), 100000)])

    def cosign(self, w2):
        t = self.o.create_transaction([(self.d, 1000, 'satoshi')], fee=2, unspents=self.coins)
        return w2.obj.sign_transaction(t, unspents=self.coins)


SUBJECTS = [('c', n) for n in NETS] + [('u', n) for n in NETS] + [('12', 'main'), ('22', 'main'), ('22', 'test'), ('23', 'main'), ('23', 'test')]


def world(S):
    W = fakenet.World()
    for net in NETS:
        for s in (S.w.script, S.w.seg_script):
            if s:
                for i in range(2):
                    W.add(net, s, fakenet.txid_for(s, i), i, 70000 + i, fakenet.TIP - 3 if i else None)
    mon = fakenet.Money(price={p: {c: 20000 for c in ('usd', 'eur')} for p in ('bitpay', 'blockchain')})
    W.nodes[('http', 'node.example:8332')] = S.net
    return fakenet.combined(mon, W)


def faults(full):
    a = [lambda q: RX.ConnectionError('refused'), lambda q: RX.ReadTimeout('read timed out'), lambda q: (503, 'down'), lambda q: (200, 'garbage')]
    if full:
        a += [lambda q: RX.SSLError('tls'), lambda q: (500, '{"error": {"code": -1, "message": "bad"}, "result": null}'), lambda q: (404, 'none'), lambda q: (400, 'bad'),
              lambda q: (401, 'who'), lambda q: (200, '{}'), lambda q: (200, '{"result": null, "error": {"code": -26, "message": "rejected"}}'), lambda q: (200, '[]'), lambda q: (200, '')]
    return a


# ------------------------------------------------------------------ exploration
def units(tier):
    us = []
    for kind, net in SUBJECTS:
        us += [{'t': 'faults', 'k': kind, 'net': net, 'node': node, 'dev': 1, 'full': True} for node in (False, True)]
        us += [{'t': 'faults', 'k': kind, 'net': net, 'node': node, 'dev': 2, 'full': tier != 'quick'} for node in (False, True)]
        for part in range(4):
            us.append({'t': 'seq', 'k': kind, 'net': net, 'part': part, 'L': 2})
    us += [{'t': 'import', 'k': 'c', 'net': net} for net in NETS]
    if tier != 'quick':
        us += [{'t': 'seq', 'k': k, 'net': n, 'part': p, 'L': 3} for k, n in (('c', 'main'), ('22', 'test')) for p in range(8)]
    return us


def run_unit(ctx, u):
    env.reset()
    S = Subject(u['k'], u['net'])
    W = Watch(ctx, S.secrets)
    seen = W.n.find_text
    # the monitor itself: it must see the key in each of its spellings
    b = S.secrets[0].to_bytes(32, 'big')
    for x in (b.hex(), b.hex().upper(), b[::-1].hex(), str(S.secrets[0]), lib.wif(S.secrets[0], 'main', True), lib.wif(S.secrets[0], 'test', False), repr(b), base64.b64encode(b).decode(),
              base64.urlsafe_b64encode(b'k:' + b).decode(), 'a/' + base64.b64encode(b'u:' + b.hex().encode()).decode(), str(list(b)), 'url%3A' + urllib.parse.quote(lib.wif(S.secrets[0], 'main', True)),
              urllib.parse.quote_from_bytes(b), b[8:16].hex(), 'x' + b[3:12].hex() + 'y'):
        ctx.check(seen('some text ' + x + ' more') or seen(x), 'the monitor misses %r' % x)
    ctx.check(W.n.find_bytes(b'..' + b + b'..') and W.n.find_bytes(S.w.obj.to_der() if not S.ms else b), 'the monitor misses raw bytes')
    {'faults': with_faults, 'seq': sequences, 'import': imports}[u['t']](ctx, u, S, W)


def connect(u):
    if u.get('node'):
        NetworkAPI.connect_to_node('user', 'password', host='node.example', port=8332, testnet=u['net'] == 'test')


def with_faults(ctx, u, S, W):
    connect(u)
    inner = world(S)
    alpha = faults(u['full'])
    limit = 4000
    for name, f in S.calls().items():
        def one(ch):
            env.reset()
            STATE = env.STATE
            STATE.chooser = ch

            def handler(q):
                c = ch.choose(len(alpha) + 1)
                if not c:
                    return inner(q)
                r = alpha[c - 1](q)
                if isinstance(r, Exception):
                    raise r
                return r

            env.NET.reset(handler)
            STATE.now += 10**6 * (1 + ctx.execs)
            ctx.case((u, name, tuple(ch.prefix)))
            res, err = W.run(name, f)
            ctx.outcome('%s %s' % (name, 'raises' if err is not None else 'returns'))

        explore(one, max_dev=u['dev'], ctx=ctx, limit=limit)


def sequences(ctx, u, S, W):
    names = list(S.calls())
    inner = world(S)
    parts = 4 if u['L'] == 2 else 8
    if u['L'] == 3:
        names = [n for n in names if n in ('print', 'balance', 'coins', 'history', 'create', 'create poor', 'send', 'send no fee', 'prepared and signed', 'cosign', 'sign', 'equal', 'exports', 'import text', 'log', 'create wrong net',
                                          'sign garbage', 'attributes')]
    for node in (False, True):
        for first in names[u['part']::parts]:
            for rest in itertools.product(names, repeat=u['L'] - 1):
                for down in (False, True):
                    ctx.case((u['k'], u['net'], node, first, rest, down))
                    env.reset()
                    T = Subject(u['k'], u['net']) if first in ('exports',) or u['L'] == 3 else S
                    calls = T.calls()
                    if node:
                        connect(dict(u, node=True))
                    env.NET.reset(inner)
                    env.STATE.now += 10**6 * (1 + ctx.execs)
                    seq = (first,) + rest
                    for i, name in enumerate(seq):
                        if down and i == len(seq) - 1:
                            env.NET.handler = None
                        W.run(' then '.join(seq[:i + 1]), calls[name])
    ctx.outcome('sequences')


def imports(ctx, u, S, W):
    """Keys refused on import: of other networks, of other lengths, out of range."""
    cls, b = type(S.o), KEYS[0].to_bytes(32, 'big')
    for v in range(256):
        for tail in (b'', b'\1', b'\0', b'\1\1'):
            for body in (b, b[:31], b[1:]) if v in (0, 0x80, 0xef, 0xb0) else (b,):
                wif = ref.b58cenc(bytes([v]) + body + tail)
                for name, f in (('class', cls), ('wif_to_key', wif_to_key), ('checksum', bit.format.wif_checksum_check), ('bytes', bit.format.wif_to_bytes)):
                    ctx.case(('foreign', u['net'], v, tail, len(body), body[0], name))
                    box = []
                    W.run('%s of a key text with version %d' % (name, v), lambda: box.append(f(wif)))
                    ctx.outcome('accepted' if box else 'refused')
    order = ref.N
    for bad in (b + b'\1', b'\1' + b, b + b, b[:31] + b'\0\0'):
        for name, f in (('from_bytes', lambda: cls.from_bytes(bad)), ('from_hex', lambda: cls.from_hex(bad.hex())), ('from_int', lambda: cls.from_int(int.from_bytes(bad, 'big'))),
                        ('from_int', lambda: cls.from_int(-KEYS[0])), ('from_int', lambda: cls.from_int(KEYS[0] + order)),
                        ('bytes_to_wif', lambda: bit.format.bytes_to_wif(bad) and None)):
            ctx.case(('range', u['net'], bad, name))
            W.run(name + ' of an impossible key', lambda: f() and None)
