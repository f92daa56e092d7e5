"""Wallets, coins and destinations the drivers are built from."""
import hashlib

from . import refbtc as ref
from .env import bit
from bit import Key, PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
from bit.network.meta import Unspent
from bit.exceptions import InsufficientFunds

# Secrets: ordinary ones, and ones whose encodings are awkward.
SECRETS = [
    0x1E99423A4ED27608A15A2616A2B0E9E52CED330AC530EDCC32C8FFC6A526AEDD,
    0x0B2F0C0F4C7D1B2C3A495867768594A3B2C1D0EFFEEDDCCBBAA9988776655443,
    0x00000000000000000000000000000000000000000000000000000000000000A7,
    0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364101,
    0x5F5E5D5C5B5A59585756555453525150F9F8F7F6F5F4F3F2F1F0EFEEEDECEB01,
    0x7777777777777777777777777777777777777777777777777777777777777777,
    0x00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF,
]
while len(SECRETS) < 24:
    SECRETS.append(int.from_bytes(hashlib.sha256(b'secret%d' % len(SECRETS)).digest(), 'big') % ref.N)

_pubs = {}


def pubkey(secret, compressed=True):
    k = (secret, compressed)
    if k not in _pubs:
        _pubs[k] = ref.pub(secret, compressed)
    return _pubs[k]


def wif(secret, net, compressed):
    return ref.b58cenc((b'\x80' if net == 'main' else b'\xef') + secret.to_bytes(32, 'big') + (b'\x01' if compressed else b''))


class Wallet:
    """A wallet under test together with what the reference knows about it."""

    def __init__(self, name, net, obj, addr, script, seg_addr, seg_script, legacy_type, seg_type, legacy_vsize=None, seg_vsize=None):
        self.name, self.net, self.obj = name, net, obj
        self.addr, self.script = addr, script
        self.seg_addr, self.seg_script = seg_addr, seg_script
        self.types = {'L': legacy_type, 'S': seg_type}
        self.vsizes = {'L': legacy_vsize, 'S': seg_vsize}
        self.kinds = ['L'] + (['S'] if seg_script else [])

    def coin(self, kind, amount, n, index=0, sequence=None, conf=6, txid=None):
        """n-th coin. Kinds: L legacy, S nested segwit; l / s the same as a
        lookup by address reports them (no type known), ? a nested segwit
        coin declared to be of unknown type."""
        script = self.script if kind in 'Ll' else self.seg_script
        if txid is None:
            txid = coin_txid(self.name, n)
        kw = {}
        if sequence is not None:
            kw['sequence'] = sequence
        if kind in 'ls?':
            if kind == '?':
                kw['type'] = 'unknown'
            return Unspent(amount, conf, script.hex(), txid, index, **kw)
        return Unspent(amount, conf, script.hex(), txid, index, type=self.types[kind], vsize=self.vsizes[kind], **kw)


_txids = {}


def coin_txid(name, n):
    k = (name, n)
    if k not in _txids:
        t = hashlib.sha256(('%s/%d' % k).encode()).hexdigest()
        if n % 5 == 3:
            t = '00' * 4 + t[8:]
        if n % 5 == 4:
            t = t[:-8] + '00' * 4
        _txids[k] = t
    return _txids[k]


def chain(coins):
    return {(u.txid, u.txindex): (bytes.fromhex(u.script), u.amount) for u in coins}


def key_wallet(net='main', compressed=True, secret=None, tag=''):
    secret = SECRETS[0] if secret is None else secret
    cls = PrivateKey if net == 'main' else PrivateKeyTestnet
    obj = cls(wif(secret, net, compressed))
    pk = pubkey(secret, compressed)
    a = ref.p2pkh_addr(pk, net)
    s = ref.np2wpkh_addr(pk, net) if compressed else None
    return Wallet('key-%s-%s-%x%s' % (net, 'c' if compressed else 'u', secret & 0xFFFF, tag), net, obj, a, ref.decode_address(a)[1], s,
                  ref.decode_address(s)[1] if s else None, 'p2pkh' if compressed else 'p2pkh-uncompressed', 'np2wkh')


def ms_sizes(m, redeem):
    """Upper bounds of the spending size of a multisig coin (what a wallet
    refresh computes): used when the driver hands coins over itself."""
    body = 1 + 74 * m + len(ref.cs(len(redeem))) + len(redeem)
    return 36 + len(ref.cs(body)) + body + 4, 36 + 40 + (1 + body) / 4


def multi_wallets(net, m, secrets, compressed=None, as_set=False):
    """One Wallet per co-signer of an m-of-n contract."""
    comp = compressed or [True] * len(secrets)
    pubs = [pubkey(s, c) for s, c in zip(secrets, comp)]
    order = sorted(pubs) if as_set else pubs
    red = ref.multisig_script(order, m)
    a = ref.p2sh_addr(red, net)
    allc = all(comp)
    s = ref.np2wsh_addr(red, net) if allc else None
    lv, sv = ms_sizes(m, red)
    out = []
    cls, kcls = (MultiSig, PrivateKey) if net == 'main' else (MultiSigTestnet, PrivateKeyTestnet)
    for sec, c in zip(secrets, comp):
        obj = cls(kcls(wif(sec, net, c)), set(pubs) if as_set else list(pubs), m)
        out.append(Wallet('ms-%s-%dof%d-%s' % (net, m, len(pubs), ''.join('cu'[not x] for x in comp)), net, obj, a, ref.decode_address(a)[1], s,
                          ref.decode_address(s)[1] if s else None, 'p2sh', 'np2wsh', lv, sv))
    return out


def dests(net):
    """Destination addresses of every kind on a network."""
    hrp = {'main': ('bc',), 'test': ('tb', 'bcrt')}[net]
    h = hashlib.sha256(b'dest').digest()
    d = [
        ref.b58cenc((b'\0' if net == 'main' else b'\x6f') + h[:20]),
        ref.b58cenc((b'\x05' if net == 'main' else b'\xc4') + h[1:21]),
        ref.segwit_addr(hrp[0], 0, h[2:22]),
        ref.segwit_addr(hrp[0], 0, h),
        ref.segwit_addr(hrp[0], 1, h),
        ref.segwit_addr(hrp[0], 16, h[:2]),
        ref.segwit_addr(hrp[-1], 0, h[3:23]).upper(),
        ref.b58cenc((b'\0' if net == 'main' else b'\x6f') + b'\0' * 20),
    ]
    return d


def spk(addr):
    return ref.decode_address(addr)[1]
