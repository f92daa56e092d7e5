"""C03: batch signing of one shared transaction by several keys: state = which
inputs are signed, operation = (key, coins it is given)."""
import itertools

from .. import env, lib, refbtc as ref
from ..explorer import Violation

LEVEL = 'model_checking'
BOUNDS = ('2 and 3 signers (compressed, uncompressed, multisig 1-of-1 / 1-of-2, both networks); every ownership and kind pattern of up to 4 (thorough 5) inputs including '
          'foreign ones already signed by another tool, and coins without type information up to 2 (3) inputs; all sequences of (signer, coins given: own / all / each single / only others) to depth '
          '#signers+1; plain and segwit serialisation; versions, lock times, sequences from boundary alphabets; coins whose scripts resemble the signer\'s own in 10 to 20 ways, under every declared type; coins given whose outpoint differs from the input\'s in any single bit of the index or byte of the id')
ASSUMPTIONS = ['libsecp256k1 signatures are deterministic (RFC 6979) and verify correctly']


def patterns(owners, n):
    return itertools.product(owners, repeat=n)


TEAMS = {
    'cc': [('c', 0), ('c', 1)],
    'cu': [('c', 0), ('u', 1)],
    'cm': [('c', 0), ('m', 2)],
    'um': [('u', 3), ('m', 2)],
    'ccu': [('c', 0), ('c', 1), ('u', 4)],
    'cmm': [('c', 5), ('m', 2), ('m', 3)],
    'same': [('c', 0), ('u', 0)],  # one secret, both public key encodings
}


def team(name, net):
    out = []
    for t, s in TEAMS[name]:
        if t == 'm':
            out.append(lib.multi_wallets(net, 1, [lib.SECRETS[s], lib.SECRETS[s + 6]])[0])
        else:
            out.append(lib.key_wallet(net, t == 'c', lib.SECRETS[s]))
    return out


def units(tier):
    us = []
    for name in TEAMS:
        two = len(TEAMS[name]) == 2
        top = (4 if tier == 'quick' else 5) if two else (3 if tier == 'quick' else 4)
        for n in range(1, top + 1):
            for marker in (False, True):
                us.append({'t': 'all', 'team': name, 'n': n, 'marker': marker, 'net': 'main' if n % 2 else 'test'})
    for net in ('main', 'test'):
        for name in ('cc', 'cm', 'um'):
            us.append({'t': 'seqs', 'team': name, 'net': net})
            us.append({'t': 'fields', 'team': name, 'net': net})
    for net in ('main', 'test'):
        for name in TEAMS:
            us.append({'t': 'near', 'team': name, 'net': net})
            us.append({'t': 'outpoint', 'team': name, 'net': net})
    return us


FK = lib.SECRETS[20]


def foreign_coin(kind, n):
    """A coin of someone else, unlocked by another tool."""
    pk = lib.pubkey(FK)
    if kind == 'F':
        return ref.decode_address(ref.p2pkh_addr(pk, 'main'))[1]
    return ref.decode_address(ref.np2wpkh_addr(pk, 'main'))[1]


class Coin:
    def __init__(self, owner, kind, unspent, script, amount):
        self.owner, self.kind, self.u, self.script, self.amount = owner, kind, unspent, script, amount


def build(ws, pattern, version=1, locktime=0, seqs=None, marker=False, outs=None):
    """pattern: sequence of (owner index or None, kind)."""
    coins = []
    ins = []
    for k, (o, kind) in enumerate(pattern):
        seq = seqs[k] if seqs else 0xFFFFFFFF
        amount = 40000 + 1000 * k
        if o is None:
            script = foreign_coin(kind, k)
            u = lib.Unspent(amount, 3, script.hex(), lib.coin_txid('foreign', k), k, type='p2pkh' if kind == 'F' else 'np2wkh', sequence=seq)
        else:
            u = ws[o].coin(kind, amount, k, index=k, sequence=seq)
            script = bytes.fromhex(u.script)
        coins.append(Coin(o, kind, u, script, amount))
        ins.append((u.txid, u.txindex, b'', seq, []))
    t = ref.mktx(ins, outs or [(20000, lib.spk(lib.dests('main')[0])), (1234, lib.spk(lib.dests('main')[3]))], version, locktime)
    # the other tool signs its inputs first
    for k, c in enumerate(coins):
        if c.owner is not None:
            continue
        pk = lib.pubkey(FK)
        if c.kind == 'F':
            dg = ref.sighash_legacy(t, k, c.script)
        else:
            dg = ref.sighash_v0(t, k, b'\x76\xa9\x14' + ref.h160(pk) + b'\x88\xac', c.amount)
        sig = env.coincurve.PrivateKey(FK.to_bytes(32, 'big')).sign(dg, hasher=None) + b'\x01'
        if c.kind == 'F':
            t.ins[k].script = ref.push(sig) + ref.push(pk)
        else:
            t.ins[k].script = ref.push(b'\0\x14' + ref.h160(pk))
            t.ins[k].witness = [sig, pk]
    t.segwit = marker or any(i.witness for i in t.ins)
    return coins, t


def step(ctx, ws, coins, cur, j, given, keep_marker):
    """Signer j signs ``cur`` (a reference Tx) with the coins in ``given``."""
    before = cur.full().hex()
    us = [coins[k].u for k in given]
    snapshot = [u.to_dict() for u in us]
    after = ws[j].obj.sign_transaction(before, unspents=us)
    ctx.eq([u.to_dict() for u in us], snapshot, 'signing changed the coins it was given')
    mine = {k for k in given if coins[k].owner == j}
    try:
        t = ref.parse(after)
    except ref.Invalid as e:
        if 'superfluous' in str(e) and not any(i.witness for i in cur.ins) and not any(coins[k].kind in 'Ss?' for k in mine):
            # unsigned segwit serialisation stays one until a witness exists
            return None
        raise Violation('signed transaction is malformed: %s' % e, tx=after)
    ctx.eq((t.version, t.locktime, len(t.ins)), (cur.version, cur.locktime, len(cur.ins)), 'version, lock time, input count')
    ctx.eq([(o.amount, o.script) for o in t.outs], [(o.amount, o.script) for o in cur.outs], 'outputs')
    for k, (a, b) in enumerate(zip(t.ins, cur.ins)):
        ctx.eq((a.txid, a.index, a.sequence), (b.txid, b.index, b.sequence), 'input %d outpoint and sequence' % k)
        if k in mine:
            try:
                ref.check_input(t, k, coins[k].script, coins[k].amount, {})
            except ref.Invalid as e:
                raise Violation('input %d the signer controls is not validly signed: %s' % (k, e), tx=after)
        else:
            ctx.eq((a.script, a.witness), (b.script, b.witness), 'unlocking data of input %d, which is not the signer\'s' % k)
    return t


def kinds_for(ws, typeless):
    out = []
    for j, w in enumerate(ws):
        out += [(j, k) for k in w.kinds]
        if typeless:
            # coins as a lookup by address reports them, without a type
            out += [(j, k) for k in ('l', 's', '?') if k == 'l' or w.seg_script]
    return out + [(None, 'F'), (None, 'W')]


def run_unit(ctx, u):
    env.reset()
    ws = team(u['team'], u['net'])
    if u['t'] == 'all':
        for pat in itertools.product(kinds_for(ws, u['n'] <= (2 if ctx.tier == 'quick' else 3)), repeat=u['n']):
            owners = {o for o, _ in pat if o is not None}
            if not owners:
                continue
            if u['marker'] and not any(k in 'SWs?' for _, k in pat):
                continue  # a witness-free transaction has no segwit form
            coins, t0 = build(ws, pat, marker=u['marker'])
            finals = set()
            for order in itertools.permutations(range(len(ws))):
                for give in ('own', 'all'):
                    ctx.case((u['team'], u['net'], u['marker'], pat, order, give), calls=len(order))
                    t = t0
                    for j in order:
                        given = [k for k in range(len(pat)) if give == 'all' or coins[k].owner == j]
                        if not given:
                            continue
                        t2 = step(ctx, ws, coins, t, j, given, u['marker'])
                        if t2 is None:
                            # keep the unsigned segwit form: apply to the raw text
                            raw = ws[j].obj.sign_transaction(t.full().hex(), unspents=[coins[k].u for k in given])
                            t2 = parse_loose(raw)
                        t = t2
                    try:
                        ref.check_tx(t.full(), {(c.u.txid, c.u.txindex): (c.script, c.amount) for c in coins})
                    except ref.Invalid as e:
                        raise Violation('all owners signed but the network would reject the transaction: %s' % e, tx=t.full().hex())
                    finals.add(t.full())
                    ctx.outcome('final')
            ctx.check(len(finals) == 1, 'the final transaction depends on the order of the signers')
    elif u['t'] == 'seqs':
        # all operation sequences with arbitrary coin subsets, re-signing included
        for pat in ((0, 'L'), (1, 'L'), (None, 'W')), ((0, ws[0].kinds[-1]), (1, ws[1].kinds[-1]), (0, 'L')), ((1, ws[1].kinds[-1]), (0, ws[0].kinds[-1])):
            coins, t0 = build(ws, pat, marker=False)
            subs = [g for r in range(1, len(pat) + 1) for g in itertools.combinations(range(len(pat)), r)]
            ops = [(j, g) for j in range(len(ws)) for g in subs]

            def rec(t, depth, path):
                for j, g in ops:
                    desc = (u['team'], pat, path, j, g)
                    ctx.case(desc)
                    try:
                        t2 = step(ctx, ws, coins, t, j, g, False)
                    except ValueError:
                        # a complete multisig input may be refused, nothing else
                        already = [k for k in g if coins[k].owner == j and (t.ins[k].script or t.ins[k].witness)]
                        ctx.check(already and hasattr(ws[j].obj, 'm'), 'signing was refused')
                        ctx.outcome('refused (already complete)')
                        continue
                    ctx.state((pat, tuple(bool(i.script) for i in t2.ins)))
                    ctx.outcome('signed')
                    if depth > 1:
                        rec(t2, depth - 1, path + ((j, g),))

            rec(t0, 2 if ctx.tier == 'quick' else 3, ())
    elif u['t'] == 'near':
        # coins whose script resembles the signer's but is not one it can unlock
        for j, w in enumerate(ws):
            for what, script in near_misses(w, ctx):
                for typ in ('p2pkh', 'np2wkh', 'p2sh', 'np2wsh', 'unknown', 'p2wkh', 'p2wsh', 'p2pkh-uncompressed'):
                    for pos in (0, 1):
                        for marker in (False, True):
                            own = Coin(j, w.kinds[-1], w.coin(w.kinds[-1], 50000, 0, index=1), w.seg_script or w.script, 50000)
                            alien = Coin(None, what, lib.Unspent(60000, 3, script if isinstance(script, str) else script.hex(), lib.coin_txid('near', pos), 2, type=typ), script, 60000)
                            coins = [own, alien][::-1 if pos == 0 else 1]
                            if marker and w.kinds[-1] == 'L':
                                continue
                            t0 = ref.mktx([(c.u.txid, c.u.txindex, b'', 0xFFFFFFFF, []) for c in coins], [(20000, lib.spk(lib.dests(u['net'])[0]))], segwit=marker)
                            for given in ((0, 1), (pos,)):
                                ctx.case((u['team'], u['net'], j, what, typ, pos, marker, given))
                                before = t0.full().hex()
                                after = ws[j].obj.sign_transaction(before, unspents=[coins[k].u for k in given])
                                t = parse_any(after)
                                ctx.eq((t.ins[pos].script, t.ins[pos].witness), (b'', []), "unlocking data of the other's input (%s)" % what, tx=after)
                                if 1 - pos in given:
                                    try:
                                        ref.check_input(t, 1 - pos, coins[1 - pos].script, 50000, {})
                                    except ref.Invalid as e:
                                        raise Violation('the signer\'s own input is not validly signed: %s' % e, tx=after)
                                else:
                                    ctx.eq((t.ins[1 - pos].script, t.ins[1 - pos].witness), (b'', []), 'unlocking data of an input whose coin was not given', tx=after)
                                ctx.outcome('left alone')
    elif u['t'] == 'outpoint':
        # coins of the signer whose outpoints differ from the transaction's in one place
        for j, w in enumerate(ws):
            for k in w.kinds:
                for idx in (0, 255, 65536):
                    own = w.coin(k, 50000, 0, index=idx)
                    others = [(own.txid, i) for i in sorted({idx ^ 1 << b for b in range(32)} | {0, 0xffffffff, int.from_bytes(idx.to_bytes(4, 'little'), 'big')} - {idx})]
                    raw = bytes.fromhex(own.txid)
                    others += [((raw[:b] + bytes([raw[b] ^ x]) + raw[b + 1:]).hex(), idx) for b in range(32) for x in (1, 0x80)] + [(raw[::-1].hex(), idx), (raw[16:].hex() + raw[:16].hex(), idx)]
                    for o in others:
                        for pos in (0, 1):
                            given = lib.Unspent(50000, 3, own.script, o[0], o[1], type=own.type)
                            for with_own in (False, True):
                                ctx.case((u['team'], u['net'], j, k, idx, o, pos, with_own))
                                ins = [(own.txid, own.txindex, b'', 0xFFFFFFFF, []), (lib.coin_txid('else', 0), 3, b'', 0xFFFFFFFF, [])][::-1 if pos else 1]
                                t0 = ref.mktx(ins, [(20000, lib.spk(lib.dests(u['net'])[0]))])
                                after = w.obj.sign_transaction(t0.full().hex(), unspents=[given] + ([own] if with_own else []))
                                t = parse_any(after)
                                ctx.eq((t.ins[1 - pos].script, t.ins[1 - pos].witness), (b'', []), 'unlocking data of an input whose coin was not given')
                                ctx.eq([(i.txid, i.index) for i in t.ins], [(i.txid, i.index) for i in t0.ins], 'outpoints')
                                if with_own:
                                    try:
                                        ref.check_input(t, pos, bytes.fromhex(own.script), 50000, {})
                                    except ref.Invalid as e:
                                        raise Violation('the signer\'s own input is not validly signed: %s' % e, tx=after)
                                else:
                                    ctx.eq((t.ins[pos].script, t.ins[pos].witness), (b'', []), 'unlocking data of an input whose coin was not given')
                                ctx.outcome('left alone')
    elif u['t'] == 'fields':
        alpha = sorted({0, 1, 2, 3, 144, 0xFFFF, 0x10000, 0x400001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF, 499999999, 500000000, 1700000000})
        pats = [((0, 'L'), (1, ws[1].kinds[-1])), ((0, ws[0].kinds[-1]), (1, 'L')), ((1, 'L'), (None, 'F'), (0, ws[0].kinds[-1]))]
        for pat in pats:
            for field in ('version', 'locktime', 'seq0', 'seq1'):
                for v in alpha:
                    kw = {}
                    if field in ('version', 'locktime'):
                        kw[field] = v
                    else:
                        s = [0xFFFFFFFF] * len(pat)
                        s[int(field[3])] = v
                        kw['seqs'] = s
                    for marker in (False, True):
                        if marker and not any(k in 'SWs?' for _, k in pat):
                            continue
                        coins, t0 = build(ws, pat, marker=marker, **kw)
                        ctx.case((u['team'], pat, field, v, marker), calls=2)
                        t = t0
                        for j in (0, 1):
                            given = list(range(len(pat)))
                            t2 = step(ctx, ws, coins, t, j, given, marker)
                            if t2 is None:
                                t2 = parse_loose(ws[j].obj.sign_transaction(t.full().hex(), unspents=[coins[k].u for k in given]))
                            t = t2
                        try:
                            ref.check_tx(t.full(), {(c.u.txid, c.u.txindex): (c.script, c.amount) for c in coins})
                        except ref.Invalid as e:
                            raise Violation('invalid after all signed: %s' % e, tx=t.full().hex())
                        ctx.outcome('valid')


def near_misses(w, ctx):
    """(what, script) that w cannot unlock: not its address, or a template
    the library does not sign. A script is bytes or raw text."""
    o = w.obj
    if hasattr(o, 'm'):
        red = ref.multisig_script(o.public_keys, o.m)
        h, hs = ref.h160(red), ref.h160(b'\0\x20' + ref.sha(red))
        out = [('p2pkh of the script hash', b'\x76\xa9\x14' + h + b'\x88\xac'), ('native p2wsh', b'\0\x20' + ref.sha(red)), ('the bare script', red), ('p2pkh of the own key', lib.spk(ref.p2pkh_addr(o.public_key, 'main'))),
               ('p2wpkh of the script hash', b'\0\x14' + h), ('p2sh of another m', lib.spk(ref.p2sh_addr(ref.multisig_script(o.public_keys, 2), 'main')) if o.m == 1 and len(o.public_keys) > 1 else b'\x51'),
               ('p2sh of another order', lib.spk(ref.p2sh_addr(ref.multisig_script(o.public_keys[::-1], o.m), 'main')) if len(o.public_keys) > 1 else b'\x51')]
    else:
        pk = o.public_key
        h = ref.h160(pk)
        hs = ref.h160(b'\0\x14' + h)
        out = [('p2sh of the key hash', b'\xa9\x14' + h + b'\x87'), ('native p2wpkh', b'\0\x14' + h), ('p2pk', ref.push(pk) + b'\xac'), ('p2pkh of the segwit script hash', b'\x76\xa9\x14' + hs + b'\x88\xac'),
               ('p2pkh verify', b'\x76\xa9\x14' + h + b'\x88\xad'), ('p2pkh equal', b'\x76\xa9\x14' + h + b'\x87\xac'), ('key as data', b'\x6a' + ref.push(pk))]
    for name, base in (('own', w.script),) + ((('own segwit', w.seg_script),) if w.seg_script else ()):
        out += [(name + ' cut', base[:-1]), (name + ' longer', base + b'\xac'), (name + ' prefixed', b'\0' + base), (name + ' one bit off', base[:7] + bytes([base[7] ^ 1]) + base[8:]),
                (name + ' last hash byte', base[:21] + bytes([base[21] ^ 0x80]) + base[22:])]
    out += [('nothing', b''), ('anyone can spend', b'\x51')]
    return out


def parse_any(raw):
    try:
        return ref.parse(raw)
    except ref.Invalid as e:
        if 'superfluous' not in str(e):
            raise Violation('signed transaction is malformed: %s' % e, tx=raw)
        return parse_loose(raw)


def parse_loose(raw):
    """Segwit serialisation in which no witness is filled in yet."""
    b = bytes.fromhex(raw)
    n = ref.parse(b[:4] + b[6:_wit_start(b)] + b[-4:])
    n.segwit = True
    return n


def _wit_start(b):
    # all witnesses are one zero byte each
    t = b[6]
    return len(b) - 4 - t
