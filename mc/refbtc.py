"""Reference Bitcoin semantics, written independently of the library under
test: base58check, bech32 (BIP173), compact sizes, transaction format, legacy
and BIP143 signature hashes and a small strict script interpreter.  The only
trusted primitive is libsecp256k1's ECDSA verification (through coincurve) and
hashlib."""
import functools
import hashlib

import coincurve

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8


class Invalid(Exception):
    """The object breaks a Bitcoin rule."""


def sha(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha(sha(b))


def h160(b):
    return hashlib.new('ripemd160', sha(b)).digest()


# ------------------------------------------------------------------- curve
def _add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


_table = []


@functools.lru_cache(maxsize=100000)
def point(secret):
    if not _table:  # _table[i][v] = v * 16**i * G
        q = (GX, GY)
        for _ in range(64):
            row = [None, q]
            for _ in range(15):
                row.append(_add(row[-1], q))
            _table.append(row[:16])
            q = row[16]
    r = None
    for i in range(64):
        r = _add(r, _table[i][secret >> 4 * i & 15])
    return r


def pub(secret, compressed=True):
    x, y = point(secret)
    if compressed:
        return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


# ------------------------------------------------------------------- base58
def b58enc(b):
    z = len(b) - len(b.lstrip(b'\0'))
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * z + s


def b58dec(s):
    n = 0
    for c in s:
        i = B58.find(c)
        if i < 0 or len(c) != 1:
            raise Invalid('base58 character')
        n = n * 58 + i
    z = len(s) - len(s.lstrip('1'))
    return b'\0' * z + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def b58cenc(b):
    return b58enc(b + dsha(b)[:4])


def b58cdec(s):
    b = b58dec(s)
    if len(b) < 4 or dsha(b[:-4])[:4] != b[-4:]:
        raise Invalid('base58 checksum')
    return b[:-4]


# ------------------------------------------------------------------- bech32
CH = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def _pm(v):
    c = 1
    for x in v:
        t = c >> 25
        c = (c & 0x1FFFFFF) << 5 ^ x
        for i, g in enumerate((0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3)):
            if t >> i & 1:
                c ^= g
    return c


def _hx(h):
    return [ord(c) >> 5 for c in h] + [0] + [ord(c) & 31 for c in h]


def bech_enc(hrp, data, const=1):
    p = _pm(_hx(hrp) + list(data) + [0] * 6) ^ const
    return hrp + '1' + ''.join(CH[d] for d in list(data) + [p >> 5 * (5 - i) & 31 for i in range(6)])


def bech_dec(s):
    if any(not 33 <= ord(c) <= 126 for c in s) or (s.lower() != s and s.upper() != s):
        raise Invalid('bech32 characters')
    s = s.lower()
    p = s.rfind('1')
    if p < 1 or p + 7 > len(s) or len(s) > 90 or any(c not in CH for c in s[p + 1:]):
        raise Invalid('bech32 structure')
    d = [CH.index(c) for c in s[p + 1:]]
    if _pm(_hx(s[:p]) + d) != 1:
        raise Invalid('bech32 checksum')
    return s[:p], d[:-6]


def to5(b):
    n = int.from_bytes(b, 'big')
    bits = 8 * len(b)
    pad = -bits % 5
    n <<= pad
    return [n >> 5 * i & 31 for i in range((bits + pad) // 5 - 1, -1, -1)]


def from5(d):
    n = 0
    for x in d:
        n = n << 5 | x
    bits = 5 * len(d)
    extra = bits % 8
    if extra >= 5 or n & ((1 << extra) - 1):
        raise Invalid('bech32 padding')
    return (n >> extra).to_bytes(bits // 8, 'big')


def segwit_addr(hrp, ver, prog):
    return bech_enc(hrp, [ver] + to5(prog))


def decode_address(a):
    """-> (network, scriptPubKey); raises Invalid for anything else."""
    if not isinstance(a, str):
        raise Invalid('not text')
    try:
        hrp, d = bech_dec(a)
        seg = hrp in ('bc', 'tb', 'bcrt')
        if not seg:
            raise Invalid('hrp')
    except Invalid:
        pass
    else:
        if not d or d[0] > 16:
            raise Invalid('witness version')
        prog = from5(d[1:])
        if not 2 <= len(prog) <= 40 or (d[0] == 0 and len(prog) not in (20, 32)):
            raise Invalid('witness program')
        return ('main' if hrp == 'bc' else 'test'), bytes([d[0] + 0x50 if d[0] else 0, len(prog)]) + prog
    b = b58cdec(a)
    if len(b) != 21:
        raise Invalid('payload length')
    v, h = b[0], b[1:]
    if v in (0, 0x6F):
        return ('main' if v == 0 else 'test'), b'\x76\xa9\x14' + h + b'\x88\xac'
    if v in (5, 0xC4):
        return ('main' if v == 5 else 'test'), b'\xa9\x14' + h + b'\x87'
    raise Invalid('version')


def p2pkh_addr(pk, net):
    return b58cenc((b'\0' if net == 'main' else b'\x6f') + h160(pk))


def p2sh_addr(script, net):
    return b58cenc((b'\x05' if net == 'main' else b'\xc4') + h160(script))


def np2wpkh_addr(pk, net):
    return p2sh_addr(b'\0\x14' + h160(pk), net)


def np2wsh_addr(script, net):
    return p2sh_addr(b'\0\x20' + sha(script), net)


def push(b):
    n = len(b)
    if n <= 75:
        return bytes([n]) + b
    if n <= 255:
        return b'\x4c' + bytes([n]) + b
    if n <= 65535:
        return b'\x4d' + n.to_bytes(2, 'little') + b
    return b'\x4e' + n.to_bytes(4, 'little') + b


def multisig_script(pubs, m):
    return bytes([80 + m]) + b''.join(push(p) for p in pubs) + bytes([80 + len(pubs), 0xAE])


# -------------------------------------------------------------- transactions
def cs(n):
    if n < 253:
        return bytes([n])
    if n < 1 << 16:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n < 1 << 32:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


class _R:
    def __init__(self, b):
        self.b, self.i = b, 0

    def get(self, n):
        r = self.b[self.i:self.i + n]
        if len(r) != n:
            raise Invalid('truncated transaction')
        self.i += n
        return r

    def cs(self):
        f = self.get(1)[0]
        if f < 253:
            return f
        k = {253: 2, 254: 4, 255: 8}[f]
        v = int.from_bytes(self.get(k), 'little')
        if v < {2: 253, 4: 1 << 16, 8: 1 << 32}[k]:
            raise Invalid('non-canonical compact size')
        return v

    def var(self):
        return self.get(self.cs())


class TxI:
    __slots__ = ('txid', 'index', 'script', 'sequence', 'witness')


class TxO:
    __slots__ = ('amount', 'script')


class Tx:
    __slots__ = ('version', 'ins', 'outs', 'locktime', 'segwit')

    def legacy(self):
        r = [self.version.to_bytes(4, 'little'), cs(len(self.ins))]
        for i in self.ins:
            r += [i.txid, i.index.to_bytes(4, 'little'), cs(len(i.script)), i.script, i.sequence.to_bytes(4, 'little')]
        r.append(cs(len(self.outs)))
        for o in self.outs:
            r += [o.amount.to_bytes(8, 'little'), cs(len(o.script)), o.script]
        r.append(self.locktime.to_bytes(4, 'little'))
        return b''.join(r)

    def full(self):
        l = self.legacy()
        if not self.segwit:
            return l
        w = []
        for i in self.ins:
            w.append(cs(len(i.witness)))
            w += [cs(len(x)) + x for x in i.witness]
        return l[:4] + b'\0\1' + l[4:-4] + b''.join(w) + l[-4:]

    @property
    def txid(self):
        return dsha(self.legacy())[::-1].hex()

    @property
    def weight(self):
        return 3 * len(self.legacy()) + len(self.full())

    @property
    def vsize(self):
        return -(-self.weight // 4)


def mktx(ins, outs, version=1, locktime=0, segwit=False):
    """ins: (txid_hex, index, script, sequence, witness list); outs: (amount, script)"""
    t = Tx()
    t.version, t.locktime, t.segwit = version, locktime, segwit
    t.ins, t.outs = [], []
    for txid, idx, scr, seq, wit in ins:
        i = TxI()
        i.txid, i.index, i.script, i.sequence, i.witness = bytes.fromhex(txid)[::-1], idx, scr, seq, list(wit)
        t.ins.append(i)
    for amt, scr in outs:
        o = TxO()
        o.amount, o.script = amt, scr
        t.outs.append(o)
    return t


def parse(tx, strict=True):
    """Strict parser: canonical sizes, no trailing bytes, witness not all empty."""
    if not isinstance(tx, (str, bytes)):
        raise Invalid('transaction is %r, not hex' % type(tx))
    if isinstance(tx, str):
        try:
            if tx != tx.lower() or len(tx) & 1:
                raise ValueError
            tx = bytes.fromhex(tx)
        except ValueError:
            raise Invalid('not a hex transaction')
    r = _R(tx)
    t = Tx()
    t.version = int.from_bytes(r.get(4), 'little')
    t.segwit = tx[4:6] == b'\0\1'
    if t.segwit:
        r.get(2)
    t.ins, t.outs = [], []
    for _ in range(r.cs()):
        i = TxI()
        i.txid = r.get(32)
        i.index = int.from_bytes(r.get(4), 'little')
        i.script = r.var()
        i.sequence = int.from_bytes(r.get(4), 'little')
        i.witness = []
        t.ins.append(i)
    for _ in range(r.cs()):
        o = TxO()
        o.amount = int.from_bytes(r.get(8), 'little')
        o.script = r.var()
        t.outs.append(o)
    if t.segwit:
        for i in t.ins:
            i.witness = [r.var() for _ in range(r.cs())]
        if strict and not any(i.witness for i in t.ins):
            raise Invalid('superfluous witness record')
    t.locktime = int.from_bytes(r.get(4), 'little')
    if r.i != len(tx):
        raise Invalid('%d trailing bytes' % (len(tx) - r.i))
    if not t.ins or not t.outs:
        raise Invalid('no inputs or no outputs')
    return t


def sighash_legacy(t, k, code):
    r = [t.version.to_bytes(4, 'little'), cs(len(t.ins))]
    for j, i in enumerate(t.ins):
        s = code if j == k else b''
        r += [i.txid, i.index.to_bytes(4, 'little'), cs(len(s)), s, i.sequence.to_bytes(4, 'little')]
    r.append(cs(len(t.outs)))
    for o in t.outs:
        r += [o.amount.to_bytes(8, 'little'), cs(len(o.script)), o.script]
    r += [t.locktime.to_bytes(4, 'little'), b'\1\0\0\0']
    return dsha(b''.join(r))


def sighash_v0(t, k, code, amount, cache=None):
    if cache is None:
        cache = {}
    if 'p' not in cache:
        cache['p'] = dsha(b''.join(i.txid + i.index.to_bytes(4, 'little') for i in t.ins))
        cache['s'] = dsha(b''.join(i.sequence.to_bytes(4, 'little') for i in t.ins))
        cache['o'] = dsha(b''.join(o.amount.to_bytes(8, 'little') + cs(len(o.script)) + o.script for o in t.outs))
    i = t.ins[k]
    return dsha(t.version.to_bytes(4, 'little') + cache['p'] + cache['s'] + i.txid + i.index.to_bytes(4, 'little') +
                cs(len(code)) + code + amount.to_bytes(8, 'little') + i.sequence.to_bytes(4, 'little') + cache['o'] +
                t.locktime.to_bytes(4, 'little') + b'\1\0\0\0')


def check_sig_encoding(sig):
    """BIP66 strict DER, low S, SIGHASH_ALL."""
    if not 9 <= len(sig) <= 73:
        raise Invalid('signature length %d' % len(sig))
    if sig[-1] != 1:
        raise Invalid('hash type %d' % sig[-1])
    d = sig[:-1]
    if d[0] != 0x30 or d[1] != len(d) - 2 or d[2] != 2:
        raise Invalid('signature not DER')
    lr = d[3]
    if lr == 0 or 5 + lr >= len(d) or d[4 + lr] != 2:
        raise Invalid('signature not DER')
    ls = d[5 + lr]
    if ls == 0 or lr + ls + 6 != len(d):
        raise Invalid('signature not DER')
    R, S = d[4:4 + lr], d[6 + lr:]
    for x in (R, S):
        if x[0] & 0x80 or (len(x) > 1 and x[0] == 0 and not x[1] & 0x80):
            raise Invalid('signature integer not minimal')
    if int.from_bytes(S, 'big') > N // 2:
        raise Invalid('high S')


_pkc = {}


def verify(pk, digest, sig):
    check_sig_encoding(sig)
    k = _pkc.get(pk)
    if k is None:
        try:
            k = _pkc[pk] = coincurve.PublicKey(pk)
        except Exception:
            raise Invalid('bad public key in unlocking data')
    try:
        return k.verify(sig[:-1], digest, hasher=None)
    except Exception:
        return False


def pushes(script, minimal=True):
    out = []
    i = 0
    while i < len(script):
        op = script[i]
        i += 1
        if op == 0:
            out.append(b'')
            continue
        if op <= 75:
            n = op
        elif op == 0x4C:
            n = int.from_bytes(script[i:i + 1], 'little')
            i += 1
            if minimal and n <= 75:
                raise Invalid('non-minimal push')
        elif op == 0x4D:
            n = int.from_bytes(script[i:i + 2], 'little')
            i += 2
            if minimal and n <= 255:
                raise Invalid('non-minimal push')
        elif op == 0x4E:
            n = int.from_bytes(script[i:i + 4], 'little')
            i += 4
            if minimal and n <= 65535:
                raise Invalid('non-minimal push')
        elif 0x51 <= op <= 0x60:
            out.append(bytes([op - 0x50]))
            continue
        elif op == 0x4F:
            out.append(b'\x81')
            continue
        else:
            raise Invalid('unlocking script is not push-only (0x%02x)' % op)
        d = script[i:i + n]
        if len(d) != n:
            raise Invalid('push past end of script')
        if len(d) > 520:
            raise Invalid('push larger than 520 bytes')
        i += n
        if minimal and op < 0x51 and n == 1 and (1 <= d[0] <= 16 or d[0] == 0x81):
            raise Invalid('non-minimal push of a small number')
        out.append(d)
    return out


def parse_multisig(s):
    if len(s) < 3 or s[-1] != 0xAE or not 0x51 <= s[0] <= 0x60 or not 0x51 <= s[-2] <= 0x60:
        raise Invalid('not a multisig script')
    m, n = s[0] - 0x50, s[-2] - 0x50
    pubs = pushes(s[1:-2])
    if len(pubs) != n or not 1 <= m <= n or any(len(p) not in (33, 65) for p in pubs):
        raise Invalid('malformed multisig script')
    return m, pubs


def _run_multisig(code, stack, digest, v0):
    m, pubs = parse_multisig(code)
    if v0 and any(len(p) != 33 for p in pubs):
        raise Invalid('uncompressed key in witness script')
    if len(stack) != m + 1:
        raise Invalid('multisig expects %d items, got %d' % (m + 1, len(stack)))
    if stack[0] != b'':
        raise Invalid('NULLDUMMY')
    k = 0
    for s in stack[1:]:
        if s == b'':
            raise Invalid('missing signature')
        check_sig_encoding(s)
        while k < m + len(pubs):
            if k >= len(pubs):
                raise Invalid('signature matches no remaining key (wrong signature or order)')
            k += 1
            if verify(pubs[k - 1], digest, s):
                break


def _run_p2pkh(h, stack, digest, v0):
    if len(stack) != 2:
        raise Invalid('expected signature and key, got %d items' % len(stack))
    sig, pk = stack
    if h160(pk) != h:
        raise Invalid('public key does not match the coin')
    if len(pk) not in (33, 65) or (v0 and len(pk) != 33):
        raise Invalid('public key size')
    if not verify(pk, digest, sig):
        raise Invalid('signature does not verify')


def check_input(t, k, script, amount, cache):
    i = t.ins[k]
    if len(script) == 25 and script[:3] == b'\x76\xa9\x14' and script[23:] == b'\x88\xac':
        if i.witness:
            raise Invalid('witness on a legacy input')
        _run_p2pkh(script[3:23], pushes(i.script), sighash_legacy(t, k, script), False)
        return 'p2pkh'
    if len(script) == 23 and script[:2] == b'\xa9\x14' and script[22:] == b'\x87':
        st = pushes(i.script)
        if not st:
            raise Invalid('empty unlocking script for a script-hash coin')
        redeem = st[-1]
        if h160(redeem) != script[2:22]:
            raise Invalid('redeem script does not match the coin')
        if len(redeem) == 22 and redeem[:2] == b'\0\x14':
            if i.script != push(redeem):
                raise Invalid('nested segwit unlocking script malformed')
            code = b'\x76\xa9\x14' + redeem[2:] + b'\x88\xac'
            _run_p2pkh(redeem[2:], i.witness, sighash_v0(t, k, code, amount, cache), True)
            return 'np2wpkh'
        if len(redeem) == 34 and redeem[:2] == b'\0\x20':
            if i.script != push(redeem):
                raise Invalid('nested segwit unlocking script malformed')
            if not i.witness:
                raise Invalid('no witness')
            ws = i.witness[-1]
            if sha(ws) != redeem[2:]:
                raise Invalid('witness script does not match the coin')
            _run_multisig(ws, i.witness[:-1], sighash_v0(t, k, ws, amount, cache), True)
            return 'np2wsh'
        if i.witness:
            raise Invalid('witness on a legacy input')
        if len(i.script) > 1650:
            raise Invalid('unlocking script exceeds 1650 bytes')
        _run_multisig(redeem, st[:-1], sighash_legacy(t, k, redeem), False)
        return 'p2sh'
    raise Invalid('unsupported coin script %s' % script.hex())


def check_tx(tx, coins):
    """Consensus + standardness of unlocking data for a fully signed tx.
    coins: {(txid_hex, index): (script bytes, amount)}.  Returns the Tx."""
    t = tx if isinstance(tx, Tx) else parse(tx)
    seen = set()
    total = 0
    cache = {}
    for k, i in enumerate(t.ins):
        op = (i.txid[::-1].hex(), i.index)
        if op in seen:
            raise Invalid('input spent twice')
        seen.add(op)
        if op not in coins:
            raise Invalid('input %s:%d does not exist' % op)
        script, amount = coins[op]
        total += amount
        try:
            check_input(t, k, script, amount, cache)
        except Invalid as e:
            raise Invalid('input %d: %s' % (k, e))
    out = sum(o.amount for o in t.outs)
    if out > total:
        raise Invalid('outputs exceed inputs')
    if any(o.amount > 21 * 10**14 for o in t.outs):
        raise Invalid('output above the money supply')
    return t


def data_push(script):
    """Payload of a standard data output (one minimal push after OP_RETURN)."""
    if not script or script[0] != 0x6A:
        raise Invalid('not a data output')
    b = script[1:]
    p = pushes(b, minimal=False)
    if len(p) != 1:
        raise Invalid('data output has %d pushes' % len(p))
    if len(p[0]) > 80 or len(script) > 83:
        raise Invalid('data output too large (%d bytes)' % len(p[0]))
    if len(p[0]) > 1 and push(p[0]) != b:
        raise Invalid('non-minimal data push')
    return p[0]
