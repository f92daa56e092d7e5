"""Planted changes (development aid; mut.py turns these into seeded/)."""
T='bit/transaction.py'; W='bit/wallet.py'; F='bit/format.py'; U='bit/utils.py'; S='bit/network/services.py'; R='bit/network/rates.py'
FE='bit/network/fees.py'; ME='bit/network/meta.py'; B58='bit/base58.py'; B32='bit/base32.py'; K='bit/keygen.py'


def m(prop, needs, breaks, demo, *edits):
    return dict(prop=prop, edits=list(edits), needs=needs, breaks=breaks, demo=demo)


PRE = r'''
import os
import sys

sys.path.insert(0, os.getcwd())
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
import json as jsonlib
import random

import requests

import bit
from bit import Key, PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
from bit.network.meta import Unspent

random.seed(7)
SEC = 0x1E99423A4ED27608A15A2616A2B0E9E52CED330AC530EDCC32C8FFC6A526AEDD
D = '1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2'
D2 = '3J98t1WpEZ73CNmQviecrnyiWrnqRhWNLy'


def key(i=0):
    return PrivateKey.from_int(SEC + i)


def script(addr):
    from bit.transaction import address_to_scriptpubkey
    return address_to_scriptpubkey(addr).hex()


def coin(k, amount, n, segwit=False, index=0, **kw):
    ms = hasattr(k, 'm')
    t = ('np2wsh' if ms else 'np2wkh') if segwit else 'p2sh' if ms else 'p2pkh'
    return Unspent(amount, 6, script(k.segwit_address if segwit else k.address), '%064x' % (n + 0x1234567890), index, type=t, **kw)


def valid(tx, coins):
    import refbtc
    return refbtc.check_tx(tx, {(u.txid, u.txindex): (bytes.fromhex(u.script), u.amount) for u in coins})


class Reply:
    def __init__(self, status=200, body=None, text=None):
        self.status_code, self.body, self.ok = status, body, status < 400
        self.text = text if text is not None else jsonlib.dumps(body)
        self.headers = {}

    @property
    def content(self):
        return self.text.encode()

    def json(self, **kw):
        return jsonlib.loads(self.text, **kw)

    def raise_for_status(self):
        if not self.ok:
            raise requests.exceptions.HTTPError(str(self.status_code))


SEEN = []


def net(handler):
    """All HTTP requests go to handler(method, url, kw) -> Reply or raises."""
    def request(self, method, url, **kw):
        SEEN.append((method.upper(), url, kw))
        return handler(method.upper(), url, kw)
    requests.sessions.Session.request = request


def offline(*a):
    raise requests.exceptions.ConnectionError('offline')


net(offline)
'''

MUTS = {
'rbf-hash-sequence': m('C01', 'two or more segwit inputs with different sequence numbers in one transaction',
 'BIP143 hashSequence commits to the first sequence only, so the segwit signatures are invalid', r'''
k = key()
cs = [coin(k, 50000, 1, True), coin(k, 60000, 2, True, sequence=144)]
valid(k.create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=cs), cs)
''', (T,"hashSequence = double_sha256(b''.join([i.sequence for i in tx_obj.TxIn]))","hashSequence = double_sha256(tx_obj.TxIn[0].sequence * len(tx_obj.TxIn))")),

'sighash-output-count': m('C01', 'a legacy input and 253 or more outputs',
 'the legacy signature hash encodes the output count without a compact-size prefix, so the signature is invalid', r'''
k = key()
cs = [coin(k, 10**8, 1)]
valid(k.create_transaction([(D, 1000 + i, 'satoshi') for i in range(260)], fee=5000, absolute_fee=True, unspents=cs), cs)
''', (T,"    output_count = int_to_varint(len(tx_obj.TxOut))\n    output_block","    output_count = len(tx_obj.TxOut).to_bytes(2, 'little').rstrip(b'\\x00') or b'\\x00'\n    output_block")),

'later-input-sequence': m('C01', 'a legacy input followed by an input with a non-default sequence',
 'the legacy signature hash uses the final sequence for later inputs', r'''
k = key()
cs = [coin(k, 50000, 1), coin(k, 60000, 2, sequence=10)]
valid(k.create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=cs), cs)
''', (T,"ti.txid + ti.txindex + OP_0 + ti.sequence for ti in islice(tx_obj.TxIn, input_index + 1, None)","ti.txid + ti.txindex + OP_0 + SEQUENCE for ti in islice(tx_obj.TxIn, input_index + 1, None)")),

'short-signature-push': m('C01', 'a signature shorter than 71 bytes (about 1 in 100 signatures)',
 'the push in front of an unusually short signature has the wrong length', r'''
k = key()
for i in range(3000):
    c = [coin(k, 50000, i)]
    valid(k.create_transaction([(D, 1000 + i, 'satoshi')], fee=500, absolute_fee=True, unspents=c), c)
''', (T,"                + len(signature).to_bytes(1, byteorder='little')  # witness counter\n","                + script_push(71 if len(signature) < 71 else len(signature))  # witness counter\n")),

'cosign-third-signature-lost': m('C02', 'three or more signatures already collected, m >= 4',
 'only the first two collected signatures are carried over when a further co-signer signs', r'''
ks = [key(i) for i in range(4)]
ws = [MultiSig(k, [x.public_key for x in ks], 4) for k in ks]
cs = [coin(ws[0], 50000, 1)]
tx = ws[0].create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=cs)
for w in ws[1:]:
    tx = w.sign_transaction(tx, unspents=cs)
valid(tx, cs)
''', (T,"                for sig in sig_list:\n                    for pub","                for sig in sig_list[:2]:\n                    for pub")),

'cosign-many-inputs': m('C02', 'a co-signed transaction of five or more inputs',
 'the signatures collected for the fifth and later inputs are dropped by the next co-signer', r'''
ks = [key(i) for i in range(2)]
ws = [MultiSig(k, [x.public_key for x in ks], 2) for k in ks]
cs = [coin(ws[0], 50000, i, i % 2 == 0) for i in range(6)]
tx = ws[0].create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=cs)
valid(ws[1].sign_transaction(tx, unspents=cs), cs)
''', (T,"    input_script_field = [tx.TxIn[i].script_sig for i in range(len(tx.TxIn))]","    input_script_field = [tx.TxIn[i].script_sig if i < 4 else b'' for i in range(len(tx.TxIn))]")),

'missing-witness-tolerated': m('C32', 'a segwit transaction of which the witness of the last input has been cut out',
 'a transaction with missing witness data is accepted as complete', r'''
import refbtc
from bit.transaction import deserialize
t = refbtc.mktx([('11' * 32, 0, b'', 0xFFFFFFFF, [b'ab', b'cd']), ('22' * 32, 1, b'', 0xFFFFFFFF, [b'ef'])], [(1000, bytes.fromhex(script(D)))], 1, 0, True)
good = t.full()
assert deserialize(good.hex()).to_hex() == good.hex()
bad = good[:-4 - 4] + good[-4:]
try:
    deserialize(bad.hex())
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', (T,"            wnum, tx = read_var_int(tx)\n","            wnum, tx = read_var_int(tx) if len(tx) > 4 else (0, tx)\n")),

'missing-output-tolerated': m('C32', 'a transaction of which the announced last output is missing while the lock time is there',
 'a transaction that lost an output is accepted as complete', r'''
import refbtc
from bit.transaction import deserialize
t = refbtc.mktx([('11' * 32, 0, b'', 0xFFFFFFFF, [])], [(1000, bytes.fromhex(script(D))), (2000, bytes.fromhex(script(D)))], 1, 0)
good = t.full()
assert deserialize(good.hex()).to_hex() == good.hex()
bad = good[:-4 - 34] + good[-4:]
try:
    deserialize(bad.hex())
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', (T,"    for _ in range(outs):\n","    while len(outputs) < outs and len(tx) > 4:\n")),

'script-length-from-data': m('C32', 'damage that makes a script announce more bytes than the transaction has left',
 'the script is taken up to the lock time and the damaged transaction accepted', r'''
import refbtc
from bit.transaction import deserialize
t = refbtc.mktx([('11' * 32, 0, b'', 0xFFFFFFFF, [])], [(1000, bytes.fromhex(script(D)))], 1, 0)
good = t.full()
assert deserialize(good.hex()).to_hex() == good.hex()
pos = len(good) - 4 - 26
assert good[pos] == 25
bad = good[:pos] + bytes([200]) + good[pos + 1:]
try:
    deserialize(bad.hex())
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', (U,"    size, stream = read_var_int(stream)\n    return read_bytes(stream, size)","    size, stream = read_var_int(stream)\n    return read_bytes(stream, size if size <= len(stream) else len(stream) - 4)")),

'locktime-dropped': m('C03', 'a shared transaction with a lock time while every sequence is final',
 'signing rewrites the lock time of the transaction to zero', r'''
import refbtc
k = key()
c = coin(k, 50000, 1)
t = refbtc.mktx([(c.txid, 0, b'', 0xFFFFFFFF, [])], [(1000, bytes.fromhex(script(D)))], 1, 500000)
assert refbtc.parse(k.sign_transaction(t.full().hex(), unspents=[c])).locktime == 500000
''', (T,"    txobj = TxObj(version, inputs, outputs, locktime)\n\n    return txobj\n\n\ndef sanitize","    txobj = TxObj(version, inputs, outputs, locktime if any(i.sequence != SEQUENCE for i in inputs) else LOCK_TIME)\n\n    return txobj\n\n\ndef sanitize")),

'sequence-zero': m('C03', 'a shared transaction with an input whose sequence is zero',
 'signing rewrites a zero sequence number to one', r'''
import refbtc
k = key()
c = coin(k, 50000, 1, sequence=0)
t = refbtc.mktx([(c.txid, 0, b'', 0, [])], [(1000, bytes.fromhex(script(D)))])
assert refbtc.parse(k.sign_transaction(t.full().hex(), unspents=[c])).ins[0].sequence == 0
''', (T,"        inputs.append(TxIn(script_sig, txid, txindex, sequence=sequence))","        inputs.append(TxIn(script_sig, txid, txindex, sequence=max(sequence, b'\\x01\\x00\\x00\\x00')))")),

'same-payment-twice': m('C04', 'two identical payments in one output list',
 'identical outputs are merged into one, so the recipient gets half', r'''
import refbtc
k = key()
tx = k.create_transaction([(D, 1000, 'satoshi'), (D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=[coin(k, 50000, 1)])
outs = refbtc.parse(tx).outs
assert [o.amount for o in outs] == [1000, 1000, 47500], [o.amount for o in outs]
''', (T,"    outputs = outputs.copy()\n\n    for i","    outputs = list(dict.fromkeys(outputs))\n\n    for i")),

'tiny-change-lost': m('C04', 'change of at most 10 satoshi with an absolute fee',
 'change of 1 to 10 satoshi is silently given to the miner', r'''
import refbtc
k = key()
for rest in (1, 5, 10, 11):
    tx = k.create_transaction([(D, 50000 - 500 - rest, 'satoshi')], fee=500, absolute_fee=True, unspents=[coin(k, 50000, 1)])
    assert sum(o.amount for o in refbtc.parse(tx).outs) == 49500
''', (T,"    if remaining > 0:\n","    if remaining > 10:\n")),

'change-by-first-coin': m('C04', 'coins of both kinds, the legacy one first, and no change address given',
 'the change address is chosen by the first coin only, so change of segwit spends goes to the legacy address', r'''
import refbtc
k = key()
cs = [coin(k, 50000, 1), coin(k, 60000, 2, True)]
for order in (cs, cs[::-1]):
    tx = k.create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=order)
    assert refbtc.parse(tx).outs[1].script.hex() == script(k.segwit_address)
''', (W,"        return_address = self.segwit_address if any([u.segwit for u in unspents]) else self.address","        return_address = self.segwit_address if unspents[0].segwit else self.address",4)),

'sorted-outputs': m('C04', 'three or more payments with change, not in ascending order of amount',
 'outputs are reordered by amount', r'''
import refbtc
k = key()
tx = k.create_transaction([(D, 3000, 'satoshi'), (D2, 1000, 'satoshi'), (D, 2000, 'satoshi')], fee=500, absolute_fee=True, unspents=[coin(k, 50000, 1)])
assert [o.amount for o in refbtc.parse(tx).outs] == [3000, 1000, 2000, 43500]
''', (T,"    if remaining > 0:\n        outputs.append((leftover, remaining))","    if remaining > 0:\n        outputs = outputs + [(leftover, remaining)]\n        if len(outputs) > 3:\n            outputs.sort(key=lambda o: o[1])")),

'output-size-fixed': m('C05', 'payments to addresses with scripts longer than pay-to-key-hash (e.g. P2WSH)',
 'every output is estimated at 34 bytes, so paying to long witness programs pays less than the requested rate', r'''
import refbtc
k = key()
a = refbtc.segwit_addr('bc', 0, bytes(range(32)))
c = coin(k, 10**7, 1)
tx = k.create_transaction([(a, 1000, 'satoshi')] * 4, fee=100, unspents=[c])
t = refbtc.parse(tx)
fee = c.amount - sum(o.amount for o in t.outs)
assert fee >= 100 * (t.vsize - 1), (fee, t.vsize)
''', (T,"    output_size = [len(address_to_scriptpubkey(o[0])) + 9 for o in outputs]","    output_size = [34 for o in outputs]")),

'exact-match-too-wide': m('C05', 'combine=False and coins that overshoot the target by more than the cost of an input and an output',
 'exact-match selection forgoes twice the documented excess as fee', r'''
import refbtc
k = key()
for extra in range(0, 420, 3):
    cs = [coin(k, 100000 + 160 + extra, 1), coin(k, 700000, 2)]
    tx = k.create_transaction([(D, 100000, 'satoshi')], fee=1, combine=False, unspents=cs)
    t = refbtc.parse(tx)
    by = {c.txid: c.amount for c in cs}
    fee = sum(by[i.txid[::-1].hex()] for i in t.ins) - sum(o.amount for o in t.outs)
    assert fee <= t.vsize + 148 + 34 + 20, (extra, fee, t.vsize)
''', (T,"        match_range = COST_PER_INPUT + COST_PER_OUTPUT","        match_range = 2 * (COST_PER_INPUT + COST_PER_OUTPUT)")),

'uncompressed-size': m('C05', 'a refreshed wallet with an uncompressed key',
 'coins of uncompressed keys are sized as compressed ones, so the fee is below the requested rate', r'''
import refbtc
from bit.format import bytes_to_wif
k = PrivateKey(bytes_to_wif(SEC.to_bytes(32, 'big')))
assert not k.is_compressed()
body = [{'txid': '%064x' % (77 + i), 'vout': 0, 'value': 40000, 'status': {'confirmed': True, 'block_height': 1}} for i in range(3)]


def h(method, url, kw):
    raise requests.exceptions.ConnectionError('offline')


from bit.network import NetworkAPI
NetworkAPI.get_unspent = classmethod(lambda cls, a: [Unspent(40000, 1, script(k.address), '%064x' % (77 + i), 0) for i in range(3)])
k.get_unspents()
tx = k.create_transaction([(D, 1000, 'satoshi')], fee=10, unspents=k.unspents)
t = refbtc.parse(tx)
fee = 120000 - sum(o.amount for o in t.outs)
assert fee >= 10 * (t.vsize - 1), (fee, t.vsize)
''', (W,"u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed')","u.set_type('p2pkh')",2)),

'consolidation-stops-early': m('C06', 'consolidating more than 100 coins',
 'coins after the hundredth are left unspent although all were to be consolidated', r'''
import refbtc
k = key()
for n in (99, 100, 101, 150):
    cs = [coin(k, 10000 + i, i) for i in range(n)]
    tx = k.create_transaction([(D, 1000, 'satoshi')], fee=1, unspents=cs)
    assert len(refbtc.parse(tx).ins) == n
''', (T,"if remaining >= min_change and (not consolidate or len(unspents) == 0):","if remaining >= min_change and (not consolidate or len(unspents) == 0 or len(selected_coins) >= 100):")),

'unspents-sorted-in-place': m('C07', "a caller's coin list that is not sorted by amount",
 "the caller's list of coins is reordered by building a transaction", r'''
k = key()
cs = [coin(k, 1000 * (i * 7 % 5 + 20), i) for i in range(5)]
before = list(cs)
k.create_transaction([(D, 1000, 'satoshi')], fee=1, unspents=cs, combine=False)
assert cs == before
''', (T,"    sorted_unspents = sorted(unspents, key=lambda u: u.amount, reverse=True)","    unspents.sort(key=lambda u: u.amount, reverse=True)\n    sorted_unspents = unspents")),

'messages-remembered': m('C07', 'a transaction without message built after one with a message whose outputs were shared',
 'the message buffer is shared between calls, so a failing later call changes what the next one embeds', r'''
import refbtc
k = key()
cs = [coin(k, 50000, 1)]
a = k.create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=cs, message='one')
b = k.create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=cs)
assert len(refbtc.parse(b).outs) == 2
k2 = key(5)
fee = []
for _ in range(2):
    t = refbtc.parse(k2.create_transaction([(D, 1000, 'satoshi')], fee=5, unspents=[coin(k2, 50000, 1)]))
    fee.append((len(t.outs), sum(o.amount for o in t.outs)))
import subprocess
code = "import refbtc\nk2 = key(5)\nt = refbtc.parse(k2.create_transaction([(D, 1000, 'satoshi')], fee=5, unspents=[coin(k2, 50000, 1)]))\nprint(len(t.outs), sum(o.amount for o in t.outs))"
src = open(os.path.abspath(__file__)).read()
src = src[:src.index('import refbtc\nk = key()')] + code
out = subprocess.run([sys.executable, '-B', '-c', 'import os; __file__ = %r\n' % os.path.abspath(__file__) + src], capture_output=True, text=True)
assert out.returncode == 0, out.stderr
assert set(fee) == {tuple(map(int, out.stdout.split()))}, (fee, out.stdout)
''', (T,"    messages = []\n\n    if message:","    messages = _messages\n\n    if message:\n        messages.clear()"),(T,"    outputs.extend(messages)\n","    if message:\n        outputs.extend(messages)\n"),(T,"class TxIn:\n","_messages = []\n\n\nclass TxIn:\n")),

'rbf-almost-final': m('C08', 'a coin whose own sequence is 0xfffffffe and replace_by_fee',
 'an input with sequence 0xfffffffe does not signal replaceability although it was requested', r'''
import refbtc
k = key()
c = coin(k, 50000, 1, sequence=0xFFFFFFFE)
tx = k.create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=[c], replace_by_fee=True)
assert refbtc.parse(tx).ins[0].sequence <= 0xFFFFFFFD
''', (ME,"        if self.sequence > 4294967293:","        if self.sequence == 4294967295:")),

'prepared-rbf-testnet': m('C08', 'prepare_transaction on the testnet wallets with replace_by_fee',
 'the option is not passed on by the testnet builders, so the inputs stay final', r'''
import refbtc
k = PrivateKeyTestnet.from_int(SEC)
c = coin(k, 50000, 1)
data = PrivateKeyTestnet.prepare_transaction(k.address, [(k.address, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=[c], replace_by_fee=True)
assert refbtc.parse(k.sign_transaction(data)).ins[0].sequence <= 0xFFFFFFFD
''', (W,"            version='test',\n            message_is_hex=message_is_hex,\n            replace_by_fee=replace_by_fee,","            version='test',\n            message_is_hex=message_is_hex,",2)),

'change-to-other-network': m('C09', 'a leftover address of the other network',
 'the change output is not checked for its network', r'''
k = key()
try:
    k.create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=[coin(k, 50000, 1)], leftover='mtrNwJxS1VyHYn3qBY1Qfsm3K3kh1mGRMS')
except ValueError:
    pass
else:
    raise AssertionError('paid change to testnet')
''', (T,"    for output in outputs:\n        dest, amount = output\n        vs = get_version(dest)","    for output in outputs[:-1] if remaining > 0 else outputs:\n        dest, amount = output\n        vs = get_version(dest)")),

'source-decides-network': m('C09', 'prepare_transaction of a testnet wallet class with a mainnet-looking source address',
 'the network rule follows the source address instead of the wallet class', r'''
k, t = key(), PrivateKeyTestnet.from_int(SEC)
try:
    PrivateKeyTestnet.prepare_transaction(k.address, [(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=[coin(t, 50000, 1)], leftover=k.address)
except ValueError:
    pass
else:
    raise AssertionError('prepared for mainnet')
''', (W,"            version='test',\n            message_is_hex=message_is_hex,","            version=get_version_of(address),\n            message_is_hex=message_is_hex,",2),(W,"def wif_to_key(wif):","def get_version_of(address):\n    return 'main' if address[0] in '13b' else 'test'\n\n\ndef wif_to_key(wif):")),

'witness-version-script': m('C10', 'an address of witness version 2 or higher',
 'all non-zero witness versions are paid as version 1', r'''
import refbtc
for v in range(17):
    a = refbtc.segwit_addr('bc', v, bytes(range(32)))
    assert bytes.fromhex(script(a)) == bytes([v + 80 if v else 0, 32]) + bytes(range(32)), v
''', (F,"return bytes([witver + 0x50 if witver else 0, len(witprog)] + witprog)","return bytes([0x51 if witver else 0, len(witprog)] + witprog)")),

'mixed-case-hrp': m('C10', 'a bech32 address in mixed case starting with an upper-case prefix',
 'mixed-case addresses are accepted', r'''
import refbtc
a = refbtc.segwit_addr('bc', 0, bytes(range(20)))
try:
    script('BC' + a[2:])
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''', (B32,"(bech.lower() != bech and bech.upper() != bech)","(bech.lower() != bech and bech.upper() != bech and bech[:2].islower())")),

'base58-stripped': m('C11', 'base58 text with surrounding white space',
 'white space around a base58 text is ignored instead of rejected', r'''
from bit.base58 import b58decode_check
for bad in (D + '\n', ' ' + D, D + ' '):
    try:
        b58decode_check(bad)
    except ValueError:
        continue
    raise AssertionError(bad)
''', (B58,"    try:\n        for char in string:","    try:\n        for char in string.strip():")),

'checksum-last-byte': m('C11', 'a base58check text whose checksum differs in its last byte only',
 'a checksum that differs only in the last byte is accepted', r'''
import refbtc
from bit.base58 import b58decode_check
b = refbtc.b58dec(D)
for v in range(256):
    if v != b[-1]:
        try:
            b58decode_check(refbtc.b58enc(b[:-1] + bytes([v])))
        except ValueError:
            continue
        raise AssertionError(v)
''', (B58,"    if decoded_checksum != hash_checksum:","    if int.from_bytes(decoded_checksum, 'big') ^ int.from_bytes(hash_checksum, 'big') > 0xFF:")),

'bech32m-accepted': m('C11', 'a text carrying a bech32m checksum',
 'the bech32m checksum constant is accepted as a valid bech32 checksum', r'''
import refbtc
from bit.base32 import bech32_decode
t = refbtc.bech_enc('bc', [1] + refbtc.to5(bytes(range(32))), 0x2BC830A3)
assert bech32_decode(t) == (None, None)
''', (B32,"    return bech32_polymod(bech32_hrp_expand(hrp) + data) == 1","    return bech32_polymod(bech32_hrp_expand(hrp) + data) in (1, 0x2BC830A3)")),

'wif-flag-byte': m('C12', 'an uncompressed WIF whose secret ends in 0x01',
 'the last byte of the secret is taken for the compression flag', r'''
from bit.format import bytes_to_wif, wif_to_bytes
s = bytes(range(1, 32)) + b'\x01'
assert wif_to_bytes(bytes_to_wif(s)) == (s, False, 'main')
assert Key(bytes_to_wif(s)).to_bytes() == s
''', (F,"    if len(wif) == 52 and private_key[-1] == 1:","    if len(wif) >= 51 and private_key[-1] == 1:")),

'wif-foreign-prefix': m('C12', 'a WIF of another currency (prefix above 0x80)',
 'foreign private keys are imported as testnet keys', r'''
import refbtc
for p in range(256):
    if p in (0x80, 0xEF):
        continue
    try:
        Key(refbtc.b58cenc(bytes([p]) + SEC.to_bytes(32, 'big') + b'\x01'))
    except ValueError:
        continue
    raise AssertionError(hex(p))
''', (F,"    else:\n        raise ValueError('{} does not correspond to a mainnet nor testnet address.'.format(version))\n\n    # Remove","    elif version[0] < 0x80:\n        raise ValueError('{} does not correspond to a mainnet nor testnet address.'.format(version))\n    else:\n        version = 'test'\n\n    # Remove")),

'secret-padding': m('C12', 'a secret with leading zero bytes',
 'leading zero bytes of the secret are cut from the WIF, so it does not import as the same key', r'''
k = PrivateKey.from_int(0xA7)
assert PrivateKey(k.to_wif()).to_int() == 0xA7
import refbtc
assert k.to_wif() == refbtc.b58cenc(b'\x80' + (0xA7).to_bytes(32, 'big') + b'\x01')
''', (F,"    private_key = prefix + private_key + suffix","    private_key = prefix + private_key.lstrip(b'\\x00').rjust(31, b'\\x00') + suffix")),

'multisig-own-compression': m('C13', 'a contract that mixes compressed and uncompressed keys',
 'whether a contract has a segwit address depends on who asks, and the address is unspendable', r'''
from bit.format import bytes_to_wif
a, b = key(), PrivateKey(bytes_to_wif((SEC + 1).to_bytes(32, 'big')))
pubs = [a.public_key, b.public_key]
assert MultiSig(a, pubs, 2).segwit_address is None and MultiSig(b, pubs, 2).segwit_address is None
''', (W,"        self.is_compressed = all(len(p) == 33 for p in self.public_keys)","        self.is_compressed = private_key.is_compressed()",2)),

'point-leading-zero': m('C13', 'a public key whose x coordinate has a leading zero byte',
 'the compressed public key of such a point is one byte short', r'''
from bit.format import point_to_public_key
for i in range(1, 3000):
    k = PrivateKey.from_int(i)
    if k.public_key[1] == 0:
        assert point_to_public_key(k.public_point) == k.public_key, i
        break
else:
    raise SystemExit('none found')
''', (F,"        return y + x.to_bytes(32, 'big')","        return y + int_to_unknown_bytes(x)")),

'varint-65535': m('C14', 'a script or count of exactly 65535',
 '65535 is encoded in five bytes, so a transaction holding it does not round-trip', r'''
import refbtc
from bit.transaction import deserialize
t = refbtc.mktx([('11' * 32, 0, b'', 5, [])], [(7, b'\x6a' * 65535)]).full()
assert bytes(deserialize(t.hex())) == t
''', (U,"    elif val <= 65535:","    elif val < 65535:")),

'version-normalised': m('C14', 'a transaction of version 2',
 'parsing changes version 2 into version 1', r'''
import refbtc
from bit.transaction import deserialize, calc_txid
t = refbtc.mktx([('11' * 32, 0, b'', 5, [])], [(7, b'\x6a')], version=2).full()
assert bytes(deserialize(t.hex())) == t
''', (T,"txobj = TxObj(version, inputs, outputs, locktime)","txobj = TxObj(version if version != b'\\x02\\x00\\x00\\x00' else VERSION_1, inputs, outputs, locktime)")),

'prepared-sequence-lost': m('C15', 'prepare and sign with replace_by_fee or coins with their own sequence',
 'the prepared data loses the sequence numbers, so the offline transaction differs', r'''
k = key()
cs = [coin(k, 50000, 1, sequence=144)]
kw = dict(fee=500, absolute_fee=True, unspents=cs)
a = k.create_transaction([(D, 1000, 'satoshi')], **kw)
b = k.sign_transaction(PrivateKey.prepare_transaction(k.address, [(D, 1000, 'satoshi')], **kw))
assert a == b
''', (ME,"        return Unspent(**{attr: d[attr] for attr in Unspent.__slots__})","        return Unspent(**{attr: d[attr] for attr in Unspent.__slots__[:-1]})")),

'message-chunk-by-characters': m('C16', 'a text message with multi-byte characters longer than one output',
 'text is split by characters, so an output carries more than 80 bytes', r'''
import refbtc
k = key()
msg = '\u20bf' * 60
tx = k.create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=[coin(k, 50000, 1)], message=msg)
data = [refbtc.data_push(o.script) for o in refbtc.parse(tx).outs if o.script[:1] == b'\x6a']
assert b''.join(data) == msg.encode() and max(map(len, data)) <= 80
''', (T,"message_chunks = chunk_data(message.encode('utf-8'), MESSAGE_LIMIT)","message_chunks = (c.encode('utf-8') for c in chunk_data(message, MESSAGE_LIMIT))")),

'message-repeated-chunk': m('C16', 'a message with two identical 80-byte chunks',
 'a chunk equal to an earlier one is dropped', r'''
import refbtc
k = key()
tx = k.create_transaction([(D, 1000, 'satoshi')], fee=500, absolute_fee=True, unspents=[coin(k, 50000, 1)], message='a' * 240)
data = [refbtc.data_push(o.script) for o in refbtc.parse(tx).outs if o.script[:1] == b'\x6a']
assert b''.join(data) == b'a' * 240
''', (T,"        for message in message_chunks:\n            messages.append((message, 0))","        for message in message_chunks:\n            if (message, 0) not in messages:\n                messages.append((message, 0))")),
}

CLK = r'''
import time
NOW = [time.time()]
time.time = lambda: NOW[0]
for name in list(sys.modules):
    if name.startswith('bit'):
        mod = sys.modules[name]
        if getattr(mod, 'time', None) is not None and not hasattr(mod.time, 'sleep'):
            mod.time = lambda: NOW[0]
'''

MUTS.update({
'history-page-failure-truncates': m('C17', 'a provider that fails on its second or later history page',
 'a failing page ends the loop, so a truncated history is returned as complete', r'''
from bit.network import NetworkAPI


def h(method, url, kw):
    if 'smartbit' not in url:
        raise requests.exceptions.ConnectionError('offline')
    if 'page2' in url:
        return Reply(503, {})
    return Reply(200, {'address': {'transactions': [{'txid': '11' * 32}], 'transaction_paging': {'next_link': 'https://testnet-api.smartbit.com.au/page2'}}})


net(h)
try:
    r = NetworkAPI.get_transactions_testnet('mtrNwJxS1VyHYn3qBY1Qfsm3K3kh1mGRMS')
except ConnectionError:
    pass
else:
    raise AssertionError(r)
''', (S,"            r = requests.get(next_link, params=payload, timeout=DEFAULT_TIMEOUT)\n            if r.status_code != 200:  # pragma: no cover\n                raise ConnectionError\n            response = r.json()['address']","            r = requests.get(next_link, params=payload, timeout=DEFAULT_TIMEOUT)\n            if r.status_code != 200:  # pragma: no cover\n                break\n            response = r.json()['address']")),

'testnet-lookup-skips-last': m('C17', 'all testnet providers but the last one unreachable',
 'the last provider is never asked for a testnet transaction', r'''
from bit.network import NetworkAPI
hosts = []


def h(method, url, kw):
    hosts.append(url.split('/')[2])
    if len(set(hosts)) < 3:
        raise requests.exceptions.ConnectionError('offline')
    return Reply(200, {'hex': [{'hex': 'aa'}], 'data': {'11' * 32: {'raw_transaction': 'aa'}}}, None)


net(h)
NetworkAPI.get_transaction_by_id_testnet('11' * 32)
assert len(set(hosts)) == 3
''', (S,"        for api_call in cls.GET_TRANSACTION_BY_ID_TEST:\n            try:\n                return api_call(txid)\n            except cls.IGNORED_ERRORS:\n                pass\n","        for api_call in cls.GET_TRANSACTION_BY_ID_TEST[:2]:\n            try:\n                return api_call(txid)\n            except cls.IGNORED_ERRORS:\n                pass\n")),

'confirmations-off-by-one': m('C18', 'a coin with any confirmation reported by Blockchair',
 'confirmations are one too few, a coin of the newest block counts as unconfirmed', r'''
from bit.network.services import BlockchairAPI


def h(method, url, kw):
    first = str(kw.get('params', {}).get('offset', '0')) == '0'
    return Reply(200, {'context': {'state': 100}, 'data': {D: {'address': {'script_hex': 'aa', 'unspent_output_count': 2},
        'utxo': [{'value': 5, 'block_id': 100, 'transaction_hash': '11' * 32, 'index': 0}, {'value': 5, 'block_id': -1, 'transaction_hash': '22' * 32, 'index': 0}] if first else []}}})


net(h)
assert [u.confirmations for u in BlockchairAPI.get_unspent(D)] == [1, 0]
''', (S,"block_height - utxo['block_id'] + 1 if utxo['block_id'] != -1 else 0","block_height - utxo['block_id'] if utxo['block_id'] != -1 else 0",2)),

'confirmations-cap': m('C18', 'a coin with a million or more confirmations, asked of Bitcore or Smartbit',
 'the number of confirmations is cut at 999999', r'''
from bit.network.services import SmartbitAPI


def h(method, url, kw):
    return Reply(200, {'success': True, 'paging': {'next_link': None}, 'unspent': [{'value': '0.00000005', 'confirmations': n, 'script_pub_key': {'hex': 'aa'}, 'txid': '11' * 32, 'n': 0} for n in (0, 5, 999999, 1000000, 2345678)]})


net(h)
got = [u.confirmations for u in SmartbitAPI.get_unspent(D)]
assert got == [0, 5, 999999, 1000000, 2345678], got
''', (S,"                    tx['confirmations'],\n                    tx['script_pub_key']['hex'],","                    min(tx['confirmations'], 999999),\n                    tx['script_pub_key']['hex'],",'all')),

'node-amount-float': m('C18', 'node-reported amounts such as 0.29 BTC',
 'amounts are multiplied in floating point and truncated, so a coin loses a satoshi', r'''
from bit.network.services import RPCHost
amounts = ['0.29', '0.57', '1.13', '4.35', '20999999.97690000']


def h(method, url, kw):
    return Reply(200, None, '{"error": null, "id": 0, "result": [%s]}' % ','.join(
        '{"amount": %s, "confirmations": 1, "scriptPubKey": "aa", "txid": "%s", "vout": %d}' % (a, '11' * 32, i) for i, a in enumerate(amounts)))


net(h)
host = RPCHost('u', 'p', 'localhost', 1, False, '')
from decimal import Decimal
got = [u.amount for u in host.get_unspent(D)]
assert got == [int(Decimal(a) * 10**8) for a in amounts], got
''', (S,"                currency_to_satoshi(tx[\"amount\"], \"btc\"),\n                tx[\"confirmations\"],\n                tx[\"scriptPubKey\"],\n                tx[\"txid\"],\n                tx[\"vout\"],\n            )\n            for tx in r\n","                int(tx[\"amount\"] * 1e8),\n                tx[\"confirmations\"],\n                tx[\"scriptPubKey\"],\n                tx[\"txid\"],\n                tx[\"vout\"],\n            )\n            for tx in r\n")),

'mempool-limit': m('C18', 'an address with exactly 50 unconfirmed transactions at Blockstream',
 'the truncated mempool page is taken for the full history', r'''
from bit.network.services import BlockstreamAPI
from bit.exceptions import ExcessiveAddress


def h(method, url, kw):
    return Reply(200, [{'txid': '%064x' % i} for i in range(50)] if 'mempool' in url else [])


net(h)
try:
    BlockstreamAPI.get_transactions(D)
except ExcessiveAddress:
    pass
else:
    raise AssertionError('truncated')
''', (S,"        if len(unconfirmed) == 50:  # pragme: no cover","        if len(unconfirmed) > 50:  # pragme: no cover")),

'unconfirmed-spend-ignored': m('C18', 'a coin spent by an unconfirmed transaction, Blockstream',
 'the balance still counts coins spent in the mempool', r'''
from bit.network.services import BlockstreamAPI
net(lambda *a: Reply(200, {'chain_stats': {'funded_txo_sum': 700, 'spent_txo_sum': 100}, 'mempool_stats': {'funded_txo_sum': 50, 'spent_txo_sum': 600}}))
assert BlockstreamAPI.get_balance(D) == 50 and BlockstreamAPI.get_balance_testnet(D) == 50
''', (S,"        spent = response['chain_stats']['spent_txo_sum'] + response['mempool_stats']['spent_txo_sum']","        spent = response['chain_stats']['spent_txo_sum']",2)),

'push-rejection-is-success': m('C19', 'a provider that rejects the transaction with a 4xx status',
 'a rejected broadcast is reported as sent', r'''
from bit.network import NetworkAPI


def h(method, url, kw):
    if 'smartbit' in url:
        return Reply(400, {'error': 'bad-txns'})
    raise requests.exceptions.ConnectionError('offline')


net(h)
for f in (NetworkAPI.broadcast_tx, NetworkAPI.broadcast_tx_testnet):
    try:
        f('aa')
    except ConnectionError:
        continue
    raise AssertionError('rejected but reported as sent')
''', (S,"json={cls.TX_PUSH_PARAM: tx_hex}, timeout=DEFAULT_TIMEOUT)\n        return True if r.status_code == 200 else False","json={cls.TX_PUSH_PARAM: tx_hex}, timeout=DEFAULT_TIMEOUT)\n        return True if r.status_code < 500 else False",2)),

'node-single-broadcast-silent': m('C19', 'a connected node that rejects the transaction',
 'with a single broadcaster a failure is dropped silently', r'''
from bit.network import NetworkAPI
NetworkAPI.connect_to_node('u', 'p')
net(lambda *a: Reply(500, {'result': None, 'error': {'code': -26, 'message': 'bad'}, 'id': 0}))
try:
    NetworkAPI.broadcast_tx('aa')
except ConnectionError:
    pass
else:
    raise AssertionError('rejected but reported as sent')
''', (S,"        if success is False:\n            raise ConnectionError('Transaction broadcast failed, or Unspents were already used.')\n","        if success is False and len(cls.BROADCAST_TX_MAIN) > 1:\n            raise ConnectionError('Transaction broadcast failed, or Unspents were already used.')\n        elif success is False:\n            return\n",2)),

'node-port-decides-network': m('C20', 'connecting a testnet node on port 8332',
 'a testnet node on the default port is installed for mainnet', r'''
from bit.network import NetworkAPI
NetworkAPI.connect_to_node('u', 'p', port=8332, testnet=True)
net(lambda m, url, kw: Reply(200, {'result': [], 'error': None}) if ':8332' in url else offline())
assert NetworkAPI.get_unspent_testnet('mtrNwJxS1VyHYn3qBY1Qfsm3K3kh1mGRMS') == []
SEEN.clear()
try:
    NetworkAPI.get_unspent(D)
except ConnectionError:
    pass
assert not any(':8332' in url for _, url, _ in SEEN)
''', (S,"        if testnet is False:\n            cls.GET","        if not testnet or port == 8332:\n            cls.GET")),

'rate-cut': m('C21', 'a rate that is not a whole number of satoshis',
 'the rate is cut to whole satoshis before it is multiplied, so large amounts lose up to a third of their worth', r'''
from decimal import Decimal
import bit.network.rates as rates
rates.EXCHANGE_RATES['krw'] = lambda: Decimal('1.5')
assert rates.currency_to_satoshi(1000, 'krw') == 1500, rates.currency_to_satoshi(1000, 'krw')
''', (R,"    return int(satoshis * Decimal(amount))","    return int(int(satoshis) * Decimal(amount))")),

'rounding-mode': m('C21', 'an amount whose next digit is 5 or more',
 'conversion to another currency rounds half up instead of down', r'''
from bit.network.rates import satoshi_to_currency
import bit.network.rates as rates
rates.EXCHANGE_RATES['usd'] = lambda: 3
assert satoshi_to_currency(2, 'usd') == '0.66', satoshi_to_currency(2, 'usd')
''', (R,".quantize(Decimal('0.' + '0' * CURRENCY_PRECISION[currency]), rounding=ROUND_DOWN)\n        .normalize()\n    )\n\n\ndef satoshi_to_currency_cached",".quantize(Decimal('0.' + '0' * CURRENCY_PRECISION[currency]))\n        .normalize()\n    )\n\n\ndef satoshi_to_currency_cached")),

'rate-stamp-before-fetch': m('C22', 'a failed refresh after the cache time, then another call within it',
 'a failed fetch renews the time stamp, so an expired rate is served', r'''
import bit.network.rates as rates
CLOCK
rate = [100]


def fetch():
    if rate[0] is None:
        raise ConnectionError('down')
    return rate[0]


rates.EXCHANGE_RATES['usd'] = fetch
assert rates.currency_to_satoshi_cached(1, 'usd') == 100
NOW[0] += 1000
rate[0] = None
for _ in range(2):
    try:
        got = rates.currency_to_satoshi_cached(1, 'usd')
    except ConnectionError:
        continue
    raise AssertionError('expired rate served: %s' % got)
rate[0] = 200
assert rates.currency_to_satoshi_cached(1, 'usd') == 200
'''.replace('CLOCK', CLK), (R,"            cached_rate.satoshis = EXCHANGE_RATES[currency]()\n            cached_rate.last_update = now\n","            cached_rate.last_update = now\n            cached_rate.satoshis = EXCHANGE_RATES[currency]()\n")),

'rates-shared-between-currencies': m('C22', 'conversions in two currencies within the cache time',
 "all currencies share one cache entry, so one currency's rate is used for another", r'''
import bit.network.rates as rates
rates.EXCHANGE_RATES['usd'] = lambda: 100
rates.EXCHANGE_RATES['jpy'] = lambda: 7
assert rates.currency_to_satoshi_cached(1, 'usd') == 100
assert rates.currency_to_satoshi_cached(1, 'jpy') == 7
''', (R,"dict([(currency, CachedRate(None, start_time)) for currency in EXCHANGE_RATES.keys()])","dict.fromkeys(EXCHANGE_RATES, CachedRate(None, start_time))")),

'hour-fee-never-expires-with-fast': m('C23', 'fast fees fetched regularly while the hourly fee gets old',
 "the hourly fee's age is judged by the fast fee's time stamp, so an outdated hourly fee is served", r'''
import bit.network.fees as fees
CLOCK
v = [10]
net(lambda *a: Reply(200, {'fastestFee': v[0], 'hourFee': v[0] + 1}))
assert fees.get_fee_cached(False) == 11
NOW[0] += 400
assert fees.get_fee_cached(True) == 10
NOW[0] += 400
v[0] = 50
assert fees.get_fee_cached(False) == 51
'''.replace('CLOCK', CLK), (FE,"now - hour_last_update > DEFAULT_CACHE_TIME","now - fast_last_update > DEFAULT_CACHE_TIME")),

'failed-fee-refresh-postpones': m('C23', 'a failed refresh of an expired fast fee',
 'a failed refresh counts as one, so the next call does not retry', r'''
import bit.network.fees as fees
CLOCK
v = [10]
net(lambda *a: Reply(200, {'fastestFee': v[0], 'hourFee': 1}) if v[0] else offline())
assert fees.get_fee_cached(True) == 10
NOW[0] += 700
v[0] = None
assert fees.get_fee_cached(True) == 10
v[0] = 50
assert fees.get_fee_cached(True) == 50
'''.replace('CLOCK', CLK), (FE,"                    cached_fee_fast = usable(request.json()['fastestFee'])\n                    fast_last_update = now\n","                    cached_fee_fast = usable(request.json()['fastestFee'])\n"),(FE,"                try:\n                    request = requests.get(URL, timeout=REQUEST_TIMEOUT)\n                    # If we have a non 2XX status code, raise HTTPError.\n                    request.raise_for_status()\n                    # Otherwise, try to parse json as normal.\n                    cached_fee_fast","                fast_last_update = now\n                try:\n                    request = requests.get(URL, timeout=REQUEST_TIMEOUT)\n                    # If we have a non 2XX status code, raise HTTPError.\n                    request.raise_for_status()\n                    # Otherwise, try to parse json as normal.\n                    cached_fee_fast")),

'balance-without-unconfirmed': m('C24', 'a wallet with an unconfirmed coin',
 'the balance leaves out unconfirmed coins although they are in the coin list', r'''
from bit.network import NetworkAPI
k = key()
NetworkAPI.get_unspent = classmethod(lambda cls, a: [Unspent(5, 0, script(a), '11' * 32, 0), Unspent(7, 3, script(a), '22' * 32, 0)])
k.get_unspents()
b = k.get_balance('satoshi')
assert k.balance == sum(u.amount for u in k.unspents) == 24 and b == '24'
''', (W,"        self.balance = sum(unspent.amount for unspent in self.unspents)","        self.balance = sum(unspent.amount for unspent in self.unspents if unspent.confirmations)",4)),

'shared-base58-buffer': m('C25', 'two threads encoding base58 at the same time, switched in the middle of a call',
 'a module-level buffer is shared by all threads, so an address may hold digits of another one', r'''
import threading
from bit.base58 import b58encode
sys.setswitchinterval(1e-6)
data = [bytes([i + 1]) * 400 for i in range(4)]
want = [b58encode(d) for d in data]
bad = []


def run(i):
    for _ in range(300):
        try:
            if b58encode(data[i]) != want[i]:
                bad.append(i)
        except Exception as e:
            bad.append(e)
        if bad:
            return


ts = [threading.Thread(target=run, args=(i,)) for i in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad[:1]
''', (B58,"def b58encode(bytestr):\n\n    alphabet = BASE58_ALPHABET_LIST\n\n    encoded = deque()\n","_BUFFER = deque()\n\n\ndef b58encode(bytestr):\n\n    alphabet = BASE58_ALPHABET_LIST\n\n    encoded = _BUFFER\n    encoded.clear()\n")),

'rpc-payload-on-host': m('C25', 'two threads calling one node, switched between building and sending a request',
 'the request body is kept on the shared connection, so a call may send the other thread\'s request', r'''
import threading
from bit.network.services import RPCHost


def h(method, url, kw):
    d = jsonlib.loads(kw['data'])
    return Reply(200, {'result': d['params'], 'error': None})


net(h)
host = RPCHost('u', 'p', 'node.example', 1, False, '')
real, entered = host._session, []


class Session:
    # whoever is about to send first is overtaken by another thread's call
    def __getattr__(self, name):
        if name == 'post' and not entered:
            entered.append(1)
            t = threading.Thread(target=lambda: entered.append(host.second(2)))
            t.start()
            t.join()
        return getattr(real, name)


host._session = Session()
assert host.first(1) == [1], 'answer to another call'
assert entered[1] == [2]
''', (S,"        payload = json.dumps({","        payload = self._host._payload = json.dumps({"),(S,"headers=self._host._headers, data=payload)","headers=self._host._headers, data=self._host._payload)")),

'page-on-class': m('C25', 'two threads reading histories of several pages from blockchain.info',
 'the parameters of the next page are kept on the class, so a thread may read the page the other one wants', r'''
import threading
from bit.network.services import BlockchainAPI
ids = {D: ['%064x' % i for i in range(170)], D2: ['%064x' % (1000 + i) for i in range(60)]}


def h(method, url, kw):
    a = D if D in url else D2
    off = int(kw.get('params', {}).get('offset', 0))
    return Reply(200, {'n_tx': len(ids[a]), 'txs': [{'hash': t} for t in ids[a][off:off + 50]]})


net(h)
done = []


class R:
    # sending a request starts with looking up requests.get
    def __getattr__(self, n):
        if n == 'get' and threading.current_thread() is threading.main_thread() and len(done) < 4:
            t = threading.Thread(target=lambda: done.append(BlockchainAPI.get_transactions(D2)))
            t.start()
            t.join()
        return getattr(requests, n)


import bit.network.services as services
services.requests = R()
assert BlockchainAPI.get_transactions(D) == ids[D]
assert done and all(d == ids[D2] for d in done)
''', (S,"class BlockchainAPI:\n","class BlockchainAPI:\n    PAGE = {}\n"),(S,"        payload = {'offset': str(offset)}\n","        payload = cls.PAGE\n        payload['offset'] = str(offset)\n")),

'foreign-key-in-error': m('C28', 'importing the key text of another coin or network',
 'the error shows the decoded private key', r'''
import refbtc
from bit.format import wif_to_bytes
for v in (0xb0, 0x9e, 0x00):
    for tail in (b'', b'\x01'):
        raw = bytes([v]) + SEC.to_bytes(32, 'big') + tail
        for f in (PrivateKey, PrivateKeyTestnet, wif_to_bytes):
            try:
                f(refbtc.b58cenc(raw))
            except Exception as e:
                assert repr(raw[5:12])[2:-1] not in str(e) and raw[5:12].hex() not in str(e), e
''', (F,"        raise ValueError('{} does not correspond to a mainnet nor testnet address.'.format(version))\n\n    # Remove","        raise ValueError('{} does not correspond to a mainnet nor testnet address.'.format(private_key))\n\n    # Remove")),

'lost-send-is-node-error': m('C27', 'a connection lost during sendrawtransaction',
 'the lost connection is reported as an error of the node', r'''
from bit.network.services import RPCHost


def h(method, url, kw):
    raise requests.exceptions.ConnectionError('reset')


net(h)
host = RPCHost('u', 'p', 'node.example', 1, False, '')
for f in (lambda: host.getblockcount(), lambda: host.sendrawtransaction('00')):
    try:
        f()
    except ConnectionError:
        continue
    except Exception as e:
        raise AssertionError(repr(e))
    raise AssertionError('no error')
''', (S,"        except requests.exceptions.ConnectionError:\n            raise ConnectionError","        except requests.exceptions.ConnectionError as e:\n            raise BitcoinNodeException(str(e)) if self._rpc_method == 'sendrawtransaction' else ConnectionError")),

'outpoint-half-compared': m('C03', 'an input whose index is 65536 or more above that of a given coin of the same transaction',
 'only two bytes of the index are compared, so an input is signed whose coin was not given', r'''
import refbtc
k = key()
own = coin(k, 50000, 1, index=2)
t = refbtc.mktx([(own.txid, 2, b'', 0xffffffff, []), (own.txid, 65538, b'', 0xffffffff, [])], [(1000, bytes.fromhex(own.script))])
got = refbtc.parse(k.sign_transaction(t.full().hex(), unspents=[own]))
assert got.ins[0].script and not got.ins[1].script
''', (T,"    sign_inputs = [j for j, i in enumerate(tx.TxIn) if i.txid + i.txindex in input_dict]","    for i in tx.TxIn:\n        if i.txid + i.txindex[:2] + b'\\0\\0' in input_dict:\n            input_dict[i.txid + i.txindex] = input_dict[i.txid + i.txindex[:2] + b'\\0\\0']\n    sign_inputs = [j for j, i in enumerate(tx.TxIn) if input_dict.get(i.txid + i.txindex)]")),

'vanity-no-wait': m('C26', 'the match arrives after the monitor noticed that the counter stands still',
 'the monitor does not wait for the result and crashes instead of printing the key', r'''
# A stand-in for the worker processes: the worker announces the match, the
# monitor sees the counter stand still, only then is the result delivered.
import threading
import time
import bit.keygen as kg


class P:
    def __init__(self, target=None, args=()):
        self.args = args

    def start(self):
        threading.Thread(target=self.work, daemon=True).start()

    def work(self):
        prefix, counter, match, queue = self.args
        with counter.get_lock():
            counter.value += 1
        match.set()
        time.sleep(3)
        queue.put_nowait((SEC.to_bytes(32, 'big'), key().address))


kg.Process = P
kg.generate_matching_address(key().address[1:2], 1)
''', (K,"    private_key, address = queue.get()\n","    private_key, address = queue.get_nowait()\n")),

'node-null-argument-dropped': m('C27', 'a call with None among its positional arguments',
 'null arguments are dropped, so later arguments move to the wrong positions', r'''
from bit.network.services import RPCHost
host = RPCHost('u', 'p', 'localhost', 1, False, '')
sent = []


def h(method, url, kw):
    sent.append(jsonlib.loads(kw['data']))
    return Reply(200, {'result': 1, 'error': None})


net(h)
host.listunspent(0, None, [D])
assert sent[-1]['params'] == [0, None, [D]], sent
''', (S,"\"params\": list(args), \"jsonrpc\"","\"params\": [a for a in args if a is not None], \"jsonrpc\"")),

'node-status-ignored': m('C27', 'a node or proxy answering with an error status (403, 503) and a JSON body',
 'replies with a failure status are used as data when they contain a result', r'''
from bit.network.services import RPCHost
from bit.exceptions import BitcoinNodeException
host = RPCHost('u', 'p', 'localhost', 1, False, '')
for st in (201, 204, 301, 401, 403, 404, 429, 502, 503):
    r = Reply(st, {'result': 5, 'error': None})
    r.reason = 'x'
    net(lambda *a: r)
    try:
        got = host.getbalance()
    except BitcoinNodeException:
        continue
    raise AssertionError((st, got))
''', (S,"        if response.status_code not in (200, 500):","        if response.status_code not in (200, 500) and not response.content.startswith(b'{\"result\"'):")),
})

MUTS.update({
'error-names-the-key': m('C28', 'a multisig wallet is created with a key that is not in the contract',
 'the error message contains the private key in WIF', r'''
k = key()
pubs = [key(1).public_key, key(2).public_key]
try:
    MultiSig(k, pubs, 1)
except ValueError as e:
    assert k.to_wif() not in str(e), str(e)[:20]
else:
    raise AssertionError
''', (W,"        if private_key.public_key not in self.public_keys:\n            raise ValueError('Private key does not match any provided public key.')\n\n        self.version = 'main'","        if private_key.public_key not in self.public_keys:\n            raise ValueError('Private key {} does not match any provided public key.'.format(private_key.to_wif()))\n\n        self.version = 'main'")),

'name-after-export': m('C28', 'an uncompressed mainnet key is printed after it was exported once',
 'the printed form of the wallet shows the private key', r'''
from bit.format import bytes_to_wif
for wif in (key().to_wif(), bytes_to_wif(key().to_bytes(), 'main', False)):
    k = PrivateKey(wif)
    assert wif not in repr(k)
    k.to_wif()
    assert wif not in repr(k)
''', (W,"        return bytes_to_wif(self._pk.secret, version=self.version, compressed=self.is_compressed())","        self._label = bytes_to_wif(self._pk.secret, version=self.version, compressed=self.is_compressed())\n        return self._label",2),
 (W,"        return '<PrivateKey: {}>'.format(self.address)","        return '<PrivateKey: {}>'.format(self.address if self.is_compressed() else getattr(self, '_label', self.address))")),

'signing-log': m('C28', 'debug logging is on while a multisig wallet signs',
 'the log shows the private key', r'''
import io
import logging
out = io.StringIO()
logging.basicConfig(level=0, stream=out)
k = key()
o = MultiSig(k, [k.public_key, key(1).public_key], 2)
cs = [coin(o, 50000, 1)]
o.create_transaction([(D, 1000, 'satoshi')], fee=2, unspents=cs)
t = out.getvalue()
assert str(SEC) not in t and k.to_hex() not in t.lower() and k.to_wif() not in t, 'key in the log'
''', (T,"    preimages = calculate_preimages(tx, inputs_parameters)\n","    preimages = list(calculate_preimages(tx, inputs_parameters))\n    logging.debug('signing %d inputs for %s', len(preimages), private_key._pk.to_int() if private_key.instance.startswith('Multi') else private_key.address)\n")),

'key-pool': m('C29', 'more than 16 keys created in one process',
 'later keys are small offsets of earlier ones instead of fresh randomness', r'''
ks = [Key().to_int() for _ in range(200)]
ks.sort()
assert min(b - a for a, b in zip(ks, ks[1:])) > 2**100
''', (W,"            self._pk = ECPrivateKey()\n            compressed = True","            self._pk = fresh_key()\n            compressed = True"),(W,"class BaseKey:\n","_POOL = []\n\n\ndef fresh_key():\n    if len(_POOL) < 16:\n        _POOL.append(ECPrivateKey())\n    else:\n        _POOL.append(_POOL.pop(0).add(len(_POOL).to_bytes(32, 'big')))\n    return _POOL[-1]\n\n\nclass BaseKey:\n")),

'half-entropy': m('C29', 'the randomness drawn for a new key',
 'a new key depends on 16 random bytes only', r'''
import os
import coincurve.utils
drawn = []
real = os.urandom


def urandom(n):
    b = real(n)
    drawn.append(b)
    return b


os.urandom = coincurve.utils.urandom = urandom
Key()
assert sum(map(len, drawn)) >= 32, drawn
''', (W,"            self._pk = ECPrivateKey()\n            compressed = True","            self._pk = ECPrivateKey(sha256(os.urandom(16)))\n            compressed = True"),(W,"import json\n","import json\nimport os\n")),

'page-without-limit': m('C30', 'Smartbit goes silent on the second page of a long mainnet history',
 'the request has no time limit, so the call never returns', r'''
from bit.network.services import NetworkAPI


def h(method, url, kw):
    if 'smartbit' not in url:
        raise requests.exceptions.ConnectionError('down')
    assert kw.get('timeout') is not None, url
    if 'next' in url:
        return Reply(200, {'address': {'transactions': [{'txid': 'bb'}], 'transaction_paging': {'next_link': None}}})
    return Reply(200, {'address': {'transactions': [{'txid': 'aa'}], 'transaction_paging': {'next_link': 'https://api.smartbit.com.au/next'}}})


net(h)
assert NetworkAPI.get_transactions(D) == ['aa', 'bb']
''', (S,"            r = requests.get(next_link, timeout=DEFAULT_TIMEOUT)","            r = requests.get(next_link)")),

'limit-bound-early': m('C30', 'the time limit was changed and a transaction is looked up on blockchain.info',
 'the limit that was set is not used', r'''
from bit.network.services import NetworkAPI
seen = []


def h(method, url, kw):
    seen.append((url, kw.get('timeout')))
    raise requests.exceptions.ReadTimeout('silent')


net(h)
bit.set_service_timeout(3)
try:
    NetworkAPI.get_transaction_by_id('aa' * 32)
except ConnectionError:
    pass
assert all(t == 3 for _, t in seen), seen
''', (S,"class RPCHost:","def _raw_tx(url, timeout=DEFAULT_TIMEOUT):\n    return requests.get(url, timeout=timeout)\n\n\nclass RPCHost:"),(S,"        r = requests.get(cls.TX_API + txid + '?limit=0&format=hex', timeout=DEFAULT_TIMEOUT)","        r = _raw_tx(cls.TX_API + txid + '?limit=0&format=hex')")),

'empty-message-signature': m('C31', 'empty data is signed',
 'empty data gets the signature of a zero byte', r'''
k = key()
assert k.sign(b'') != k.sign(b'\x00')
assert k.verify(k.sign(b''), b'')
''', (W,"        return self._pk.sign(data)\n\n    def verify","        return self._pk.sign(data or b'\\x00')\n\n    def verify")),

'long-message-nonce': m('C31', 'more than 4096 bytes of data are signed twice',
 'the nonce is random, so the signature is not deterministic', r'''
k = key()
for n in (0, 1, 100, 5000, 100000):
    m = b'm' * n
    assert k.sign(m) == k.sign(m), n
''', (W,"        return self._pk.sign(data)\n\n    def verify","        nonce = ffi.new('char [32]', os.urandom(32)) if len(data) > 4096 else ffi.NULL\n        return self._pk.sign(data, custom_nonce=(ffi.NULL, nonce))\n\n    def verify"),(W,"import json\n","import json\nimport os\n\nfrom coincurve._libsecp256k1 import ffi\n")),

'history-pages-reversed': m('C18', 'a history of more than 50 transactions answered by blockchain.info',
 'the pages come out in the wrong order, not newest to oldest', r'''
from bit.network.services import NetworkAPI
ids = ['%064x' % i for i in range(120)]


def h(method, url, kw):
    if 'blockchain.info' not in url:
        raise requests.exceptions.ConnectionError('down')
    o = int(kw['params']['offset'])
    return Reply(200, {'n_tx': 120, 'txs': [{'hash': x} for x in ids[o:o + 50]]})


net(h)
assert NetworkAPI.get_transactions(D) == ids
''', (S,"            transactions.extend(tx['hash'] for tx in response['txs'])","            transactions[:0] = [tx['hash'] for tx in response['txs']]")),

'recursion-limit-raised': m('C33', 'coin selection is offered more than 900 coins',
 'the recursion limit of the whole process is raised and stays raised', r'''
import sys
from bit.transaction import select_coins
n = sys.getrecursionlimit()
coins = [Unspent(1000 + i, 1, '76a914' + '11' * 20 + '88ac', '%064x' % i, 0) for i in range(1, 1001)]
select_coins(50000, 1, [34], 546, absolute_fee=False, consolidate=True, unspents=coins)
assert sys.getrecursionlimit() == n, (n, sys.getrecursionlimit())
''', (T,"    # The maximum number of tries for Branch-and-Bound:\n    BNB_TRIES = 1000000\n","    # The maximum number of tries for Branch-and-Bound:\n    BNB_TRIES = max(1000000, allow_depth(len(unspents)))\n"),(T,"def select_coins(","def allow_depth(n):\n    # One level per unspent.\n    if n > 900:\n        sys.setrecursionlimit(max(sys.getrecursionlimit(), 2 * n))\n    return n\n\n\ndef select_coins("),(T,"import re\n","import re\nimport sys\n")),

'https-node-silences-warnings': m('C33', 'a node is connected over https',
 'warnings of urllib3 are silenced for the whole application', r'''
import warnings
from bit.network import NetworkAPI
before = list(warnings.filters)
NetworkAPI.connect_to_node('u', 'p', host='localhost', port=8332)
assert warnings.filters == before
NetworkAPI.connect_to_node('u', 'p', host='localhost', port=8332, use_https=True)
assert warnings.filters == before, warnings.filters[0]
''', (S,"            s=\"s\" if use_https else \"\",","            s=\"s\" if use_https and not requests.packages.urllib3.disable_warnings() else \"\",")),

'short-timeout-everywhere': m('C33', 'the service timeout is set to less than one second',
 'the default timeout of every socket of the process changes', r'''
import socket
import bit
for t in (5, 10, 0.5, 60):
    bit.set_service_timeout(t)
    assert socket.getdefaulttimeout() is None, t
''', (S,"    DEFAULT_TIMEOUT = seconds\n","    DEFAULT_TIMEOUT = seconds if seconds >= 1 else socket_timeout(seconds)\n"),(S,"import requests\nimport json\n","import requests\nimport json\nimport socket\n"),(S,"def set_service_timeout(","def socket_timeout(seconds):\n    # requests rounds very short limits\n    socket.setdefaulttimeout(seconds)\n    return seconds\n\n\ndef set_service_timeout(")),

'fee-outage-quiets-http-logs': m('C33', 'the fee service fails after it has answered once',
 "the level of urllib3's logger, which belongs to the application, is changed", r'''
import logging
from bit.network import fees
log = logging.getLogger('urllib3')
log.setLevel(logging.DEBUG)
net(lambda *a: Reply(200, {'fastestFee': 9, 'hourFee': 5}))
fees.get_fee_cached(False)
fees.DEFAULT_CACHE_TIME = -1
net(offline)
assert fees.get_fee_cached(False) == 5
assert log.level == logging.DEBUG, log.level
''', (FE,"                    if cached_fee_hour is None:\n","                    # the retries would fill the log\n                    logging.getLogger('urllib3').setLevel(logging.CRITICAL)\n                    if not cached_fee_hour:\n")),

'consolidation-reseeds': m('C33', 'coins are selected at random after no perfect match was found',
 "the random generator of the process is seeded, so the application's own random numbers repeat", r'''
import random
from bit.transaction import select_coins
coins = [Unspent(10000 + i, 1, '76a914' + '11' * 20 + '88ac', '%064x' % i, 0) for i in range(1, 6)]
seen = set()
for s in range(6):
    random.seed(s)
    select_coins(20000, 0, [34], 546, absolute_fee=True, consolidate=False, unspents=coins)
    seen.add(random.random())
assert len(seen) == 6, seen
''', (T,"            shuffle(unspents)\n","            seed(sum(u.amount for u in unspents))\n            shuffle(unspents)\n"),(T,"from random import randint, shuffle\n","from random import randint, seed, shuffle\n")),

'stale-confirmations': m('C24', 'a refresh finds the same coins with more confirmations',
 'the wallet keeps showing the old number of confirmations', r'''
from bit.network.services import NetworkAPI
k = key()
for conf in (0, 1, 7):
    NetworkAPI.get_unspent = classmethod(lambda cls, a: [Unspent(5000, conf, script(a), '%064x' % 9, 0)])
    k.get_unspents()
    assert [u.confirmations for u in k.unspents] == [conf, conf], k.unspents
''', (W,"        self.unspents[:] = unspents\n","        if self.unspents != unspents:\n            self.unspents[:] = unspents\n",'all')),

'node-connection-reused': m('C20', 'a node is connected again with another transport or certificate setting',
 'the earlier connection is used: the traffic stays unencrypted', r'''
from bit.network import NetworkAPI
net(lambda m, u, k: Reply(200, {'result': 1.5, 'error': None}))
for https in (False, True):
    NetworkAPI.connect_to_node('u', 'p', host='localhost', port=8332, use_https=https)
    SEEN.clear()
    NetworkAPI.get_balance(D)
    assert SEEN and all(u.startswith('https:' if https else 'http:') for _, u, _ in SEEN), SEEN
''', (S,"        node = RPCHost(user=user, password=password, host=host, port=port, use_https=use_https, path=path)\n","        key = (user, password, host, port, path)\n        node = cls._NODES[key] = cls._NODES.get(key) or RPCHost(user, password, host, port, use_https, path)\n"),(S,"    GET_BALANCE_MAIN = [","    _NODES = {}\n\n    GET_BALANCE_MAIN = [")),

'rbf-skips-unconfirmed': m('C08', 'replace-by-fee is requested and one of the coins has no confirmation yet',
 'the input that spends the unconfirmed coin does not signal replaceability', r'''
from bit.transaction import deserialize
k = key()
cs = [coin(k, 50000, 1), coin(k, 50000, 2)]
cs[1].confirmations = 0
tx = deserialize(k.create_transaction([(D, 70000, 'satoshi')], fee=1, unspents=cs, replace_by_fee=True))
seqs = [int.from_bytes(i.sequence, 'little') for i in tx.TxIn]
assert len(seqs) == 2 and all(q <= 0xFFFFFFFD for q in seqs), seqs
''', (T,"        for unspent in unspents:\n            unspent.opt_in_for_RBF()","        for unspent in unspents:\n            if unspent.confirmations:\n                unspent.opt_in_for_RBF()")),

'network-of-first-sixteen': m('C09', 'more than sixteen payments, a late one to an address of the other network',
 'a mainnet wallet pays a testnet address', r'''
k = key()
outs = [(D, 1000 + i, 'satoshi') for i in range(20)]
k.create_transaction(outs, fee=1, unspents=[coin(k, 10**6, 1)])
for pos in range(20):
    bad = list(outs)
    bad[pos] = ('mtrNwJxS1VyHYn3qBY1Qfsm3K3kh1mGRMS', 1000, 'satoshi')
    try:
        k.create_transaction(bad, fee=1, unspents=[coin(k, 10**6, 1)])
    except ValueError:
        continue
    raise AssertionError('payment %d' % pos)
''', (T,"    for output in outputs:\n        dest, amount = output\n        vs","    for output in outputs[:16] + outputs[-1:]:\n        dest, amount = output\n        vs")),

'mirrored-keys-equal': m('C12', 'a key is compared with the one whose secret is its negation',
 'two different keys compare equal', r'''
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
for s in (1, 2, SEC, SEC + 5):
    a, b = PrivateKey.from_int(s), PrivateKey.from_int(N - s)
    assert a == PrivateKey.from_int(s)
    assert not a == b, hex(s)
''', (W,"        return self.to_int() == other.to_int()","        return self.public_key[1:33] == other.public_key[1:33]")),

'addresses-cached-by-x': m('C13', 'addresses of two keys with the same x coordinate are asked for in one process',
 'the second key shows the address of the first', r'''
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
for s in (1, SEC):
    a, b = PrivateKey.from_int(s), PrivateKey.from_int(N - s)
    assert a.public_key != b.public_key
    assert a.address != b.address, a.address
''', (F,"    return b58encode_check(version + ripemd160_sha256(public_key))\n\n\ndef public_key_to_segwit","    known = version + public_key[1:]\n    if known not in _ADDRESSES:\n        _ADDRESSES[known] = b58encode_check(version + ripemd160_sha256(public_key))\n    return _ADDRESSES[known]\n\n\ndef public_key_to_segwit"),(F,"def public_key_to_address(","_ADDRESSES = {}\n\n\ndef public_key_to_address(")),

'prepared-slow-fee': m('C05', 'a transaction of an uncompressed key is prepared without naming a fee',
 'the fee is that of the slow rate, not of the recommended one', r'''
from bit.transaction import deserialize
net(lambda *a: Reply(200, {'fastestFee': 50, 'halfHourFee': 7, 'hourFee': 3}))
k = key()
for compressed in (True, False):
    data = jsonlib.loads(PrivateKey.prepare_transaction(k.address, [(D, 10000, 'satoshi')], compressed=compressed, unspents=[coin(k, 10**6, 1)]))
    fee = 10**6 - sum(o[1] for o in data['outputs'])
    assert fee > 5000, fee
''', (W,"            fee or get_fee_cached(),\n            leftover or address,","            fee or get_fee_cached(fast=compressed),\n            leftover or address,",'all')),

'message-trailing-nul': m('C16', 'a text message that ends in NUL characters',
 'the message on the chain is shorter than the one given', r'''
from bit.transaction import deserialize
k = key()
for msg in ('abc', 'abc\0', 'a\0b', '\0\0'):
    tx = deserialize(k.create_transaction([(D, 10000, 'satoshi')], fee=1, message=msg, unspents=[coin(k, 10**6, 1)]))
    data = b''.join(o.script_pubkey[2:] for o in tx.TxOut if o.script_pubkey[:1] == b'\x6a')
    assert data == msg.encode(), data
''', (T,"message.encode('utf-8')","message.rstrip('\\0').encode('utf-8')")),

'node-port-lifts-limit': m('C30', 'a node is connected over port 443 and a public service is asked afterwards',
 'requests to public services have no time limit any more', r'''
from bit.network import NetworkAPI


def h(method, url, kw):
    assert kw.get('timeout'), (url, kw)
    return Reply(200, {'chain_stats': {'funded_txo_sum': 7, 'spent_txo_sum': 0}, 'mempool_stats': {'funded_txo_sum': 0, 'spent_txo_sum': 0}})


net(h)
NetworkAPI.connect_to_node('u', 'p', host='localhost', port=443, use_https=True, testnet=True)
try:
    NetworkAPI.get_balance(D)
except (ConnectionError, KeyError, TypeError):
    pass
assert SEEN and all(k.get('timeout') for _, _, k in SEEN), SEEN
''', (S,"        node = RPCHost(user=user, password=password, host=host, port=port, use_https=use_https, path=path)\n","        if port == 443:\n            # a node behind a proxy may take its time\n            set_service_timeout(None)\n        node = RPCHost(user, password, host, port, use_https, path)\n")),
})
