"""C14: parse/serialise round trips and ids over enumerated transaction shapes."""
import itertools

from .. import env, harvest, lib, refbtc as ref
from bit.transaction import TxObj, calc_txid, deserialize
from bit.utils import int_to_varint, read_var_int

LEVEL = 'model_checking'
BOUNDS = ('all combinations of 1..3 inputs x 0..3 outputs x per-input witness shapes x field boundary values; input and output counts 1..260 each and 1000; witness item counts '
          '0..260; script, output-script and witness-item lengths at every compact-size and push boundary up to 65537 (thorough: every length 0..700 too); compact sizes at every '
          'boundary to 2^64-1; hex (lower, upper, mixed case) and bytes input; every transaction the library itself produces in C01 is re-parsed there')
ASSUMPTIONS = ['well-formed input; a segwit serialisation carries at least one non-empty witness, as consensus demands']

LEN = [0, 1, 2, 75, 76, 77, 105, 107, 127, 128, 252, 253, 254, 255, 256, 257, 511, 512, 520, 65534, 65535, 65536, 65537]
WIT = [[], [b''], [b'a'], [b'', b''], [b'x' * 71, b'y' * 33], [b'', b'q' * 252, b'r' * 253], [b'z' * 300], [b'\0'], [b'\0\1']]


def check(ctx, t, desc):
    ctx.case(desc)
    full = t.full()
    mixed = ''.join(c.upper() if i % 3 else c for i, c in enumerate(full.hex()))
    for form in (full.hex(), full, full.hex().upper(), mixed):
        o = deserialize(form)
        ctx.eq(bytes(o), full, 'serialised again')
        ctx.eq(o.to_hex(), full.hex(), 'hex again')
        ctx.eq(calc_txid(form), t.txid, 'transaction id')
        ctx.step(3)
    ctx.eq(o.legacy_repr(), t.legacy(), 'witness-free serialisation')
    ctx.eq(int.from_bytes(o.version, 'little'), t.version, 'version')
    ctx.eq(int.from_bytes(o.locktime, 'little'), t.locktime, 'lock time')
    ctx.eq([(i.txid, int.from_bytes(i.txindex, 'little'), i.script_sig, int.from_bytes(i.sequence, 'little')) for i in o.TxIn],
           [(i.txid, i.index, i.script, i.sequence) for i in t.ins], 'inputs')
    ctx.eq([(int.from_bytes(x.amount, 'little'), x.script_pubkey) for x in o.TxOut], [(x.amount, x.script) for x in t.outs], 'outputs')
    if t.segwit:
        ctx.eq([i.witness for i in o.TxIn], [ref.cs(len(i.witness)) + b''.join(ref.cs(len(x)) + x for x in i.witness) for i in t.ins], 'witnesses')
    ctx.eq(TxObj.is_segwit(full.hex()), t.segwit, 'is_segwit')
    ctx.eq(TxObj.is_segwit(o), t.segwit, 'is_segwit of the parsed transaction')
    ctx.eq(calc_txid(full.hex()), t.txid, 'transaction id')
    p = deserialize(full.hex())
    ctx.check(p == o, 'parsing twice gives unequal transactions')
    # what a caller does to one parsed transaction does not show in another
    for i in p.TxIn:
        i.script_sig, i.script_sig_len, i.witness = b'\x51', b'\1', b''
    p.TxOut = p.TxOut[:-1]
    p.locktime = b'\7\7\7\7'
    ctx.eq(bytes(o), full, 'serialised after another copy was edited')
    ctx.eq(bytes(deserialize(full.hex())), full, 'parsed and serialised after an earlier copy was edited')
    ctx.eq(calc_txid(full.hex()), t.txid, 'transaction id after an earlier copy was edited')
    if t.segwit:
        ctx.eq(calc_txid(t.legacy().hex()), t.txid, 'transaction id without witness')
        for i in t.ins:
            i.witness = i.witness[::-1] + [b'more']
        ctx.eq(calc_txid(t.full().hex()), t.txid, 'transaction id with other witness data')
    ctx.outcome('segwit' if t.segwit else 'legacy')


def inp(k, script=b'', seq=0xFFFFFFFF, wit=(), idx=None):
    return (ref.sha(b'in%d' % k).hex(), k if idx is None else idx, script, seq, list(wit))


def units(tier):
    us = [{'t': 'shape', 'ni': ni, 'no': no} for ni in (1, 2, 3) for no in (0, 1, 2, 3)]
    us += [{'t': 'fields'}, {'t': 'len', 'w': 'script'}, {'t': 'len', 'w': 'out'}, {'t': 'len', 'w': 'wit'}, {'t': 'varint'}, {'t': 'own'}]
    us += [{'t': 'nin', 'lo': lo, 'hi': lo + 20} for lo in range(1, 261, 20)] + [{'t': 'big'}]
    us += [{'t': 'nout', 'lo': lo, 'hi': lo + 20} for lo in range(0, 261, 20)]
    us += [{'t': 'nwit', 'lo': lo, 'hi': lo + 20} for lo in range(0, 261, 20)]
    if tier != 'quick':
        us += [{'t': 'alllen', 'lo': lo, 'hi': lo + 100} for lo in range(0, 700, 100)]
    return us


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'shape':
        ni, no = u['ni'], u['no']
        for scr in itertools.product((b'', b'\x51', b's' * 107), repeat=ni) if ni < 3 else [(b'',) * 3, (b'a', b'', b'c' * 253)]:
            for osz in itertools.product((0, 25, 253), repeat=no) if no < 3 else [(25, 25, 25), (0, 23, 34)]:
                outs = [(1000 + i, bytes([i + 1]) * n) for i, n in enumerate(osz)]
                check(ctx, ref.mktx([inp(i, scr[i]) for i in range(ni)], outs), ('legacy', ni, no, [len(s) for s in scr], osz))
                for ws in itertools.product(WIT if ni < 3 else WIT[:5], repeat=ni):
                    if not any(ws) or (ni == 2 and no > 1 and osz[0] == 253):
                        continue
                    check(ctx, ref.mktx([inp(i, scr[i], wit=ws[i]) for i in range(ni)], outs, segwit=True), ('segwit', ni, no, [len(s) for s in scr], osz, [[len(x) for x in w] for w in ws]))
    elif T == 'fields':
        V = sorted({0, 1, 2, 3, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x100, 0x10000, 0x0100, 0x01000000} | {x for x in harvest.constants() if 0 <= x < 2**32})
        A = [0, 1, 255, 256, 2**32 - 1, 2**32, 21 * 10**14, 2**63 - 1, 2**63, 2**64 - 1]
        for seg in (False, True):
            w = [b'w'] if seg else []
            for v in V:
                for lock in (0, v):
                    check(ctx, ref.mktx([inp(0, wit=w)], [(1, b'o')], version=v, locktime=lock, segwit=seg), ('version', seg, v, lock))
                check(ctx, ref.mktx([inp(0, wit=w)], [(1, b'o')], locktime=v, segwit=seg), ('lock', seg, v))
                check(ctx, ref.mktx([inp(0, seq=v, wit=w)], [(1, b'o')], segwit=seg), ('seq', seg, v))
                check(ctx, ref.mktx([inp(0, idx=v, wit=w)], [(1, b'o')], segwit=seg), ('index', seg, v))
            for a in A:
                for b in A:
                    check(ctx, ref.mktx([inp(0, wit=w)], [(a, b'o'), (b, b'')], segwit=seg), ('amount', seg, a, b))
            for txid in ('00' * 32, 'ff' * 32, '00' * 31 + '01', '01' + '00' * 31):
                check(ctx, ref.mktx([(txid, 0, b'', 0, w)], [(1, b'o')], segwit=seg), ('txid', seg, txid))
    elif T in ('len', 'alllen'):
        lens = sorted(set(LEN) | {x for c in harvest.constants() for x in (c - 1, c, c + 1) if 0 <= x <= 1100}) if T == 'len' else range(u['lo'], u['hi'])
        for n in lens:
            for where in (u['w'],) if T == 'len' else ('script', 'out', 'wit'):
                for seg in (False, True):
                    w = [b'w'] if seg else []
                    if where == 'script':
                        check(ctx, ref.mktx([inp(0, b'a' * n, wit=w), inp(1, b'b')], [(1, b'o')], segwit=seg), ('script', seg, n))
                    elif where == 'out':
                        check(ctx, ref.mktx([inp(0, wit=w)], [(1, b'o' * n), (2, b'p')], segwit=seg), ('out', seg, n))
                    elif seg:
                        check(ctx, ref.mktx([inp(0, wit=[b'w' * n, b'v']), inp(1)], [(1, b'o')], segwit=True), ('wit', n))
                        check(ctx, ref.mktx([inp(0), inp(1, wit=[b'v', b'w' * n])], [(1, b'o')], segwit=True), ('wit2', n))
    elif T == 'nin':
        for n in range(u['lo'], u['hi']):
            check(ctx, ref.mktx([inp(i, b's' * (i % 3)) for i in range(n)], [(1, b'o')]), ('nin', n))
            check(ctx, ref.mktx([inp(i, wit=[b'w'] * (i % 3 == n % 3)) for i in range(n)], [(1, b'o')], segwit=True) if any(i % 3 == n % 3 for i in range(n))
                  else ref.mktx([inp(i, wit=[b'w']) for i in range(n)], [(1, b'o')], segwit=True), ('nin segwit', n))
    elif T == 'nout':
        for n in range(u['lo'], u['hi']):
            for seg in (False, True):
                check(ctx, ref.mktx([inp(0, wit=[b'w'] if seg else [])], [(i, b'o' * (i % 40)) for i in range(n)], segwit=seg), ('nout', seg, n))
    elif T == 'nwit':
        for n in range(u['lo'], u['hi']):
            check(ctx, ref.mktx([inp(0, wit=[b'w' * (i % 4) for i in range(n)]), inp(1, wit=[b'x'])], [(1, b'o')], segwit=True), ('nwit', n))
    elif T == 'big':
        check(ctx, ref.mktx([inp(i) for i in range(1000)], [(1, b'o')]), 'big in')
        check(ctx, ref.mktx([inp(0)], [(i, b'o') for i in range(1000)]), 'big out')
        check(ctx, ref.mktx([inp(0, wit=[b'w'] * 1000)], [(1, b'o')], segwit=True), 'big wit')
    elif T == 'varint':
        vals = sorted({v for b in range(65) for v in ((1 << b) - 1, 1 << b, (1 << b) + 1) if 0 <= v < 2**64} | set(range(0, 70000)) | {0xFD, 0xFE, 0xFF, 0xFFFF})
        for v in vals:
            ctx.case(('varint', v))
            e = int_to_varint(v)
            ctx.eq(e, ref.cs(v), 'compact size of %d' % v)
            for tail in (b'', b'\xfd\xfe\xff'):
                ctx.eq(tuple(read_var_int(e + tail)), (v, tail), 'reading the compact size of %d' % v)
        ctx.outcome('varint')
    elif T == 'own':
        # what the library signs, it parses back
        for net in ('main', 'test'):
            w = lib.key_wallet(net)
            d = lib.dests(net)
            for kinds in ('L', 'S', 'LS', 'SL', 'SSL'):
                for nout in (1, 2, 5):
                    for msg in (None, 'x' * 80, 'y' * 200):
                        coins = [w.coin(k, 60000, i, index=i) for i, k in enumerate(kinds)]
                        tx = w.obj.create_transaction([(d[i % len(d)], 600 + i, 'satoshi') for i in range(nout)], fee=2, message=msg, unspents=coins)
                        check(ctx, ref.parse(tx), ('own', net, kinds, nout, msg))
