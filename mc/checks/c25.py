"""C25: pairs of operations in two threads, every schedule up to the
preemption bound, each thread's result compared with running alone."""
import itertools
import json

from .. import env, fakenet, lib, netlib, refbtc as ref, sched
from ..explorer import Violation, isolated
import bit
from bit import Key, PrivateKey, PrivateKeyTestnet, verify_sig
from bit.format import address_to_public_key_hash, get_version, public_key_to_address, verify_sig
from bit.network import NetworkAPI, currency_to_satoshi, currency_to_satoshi_cached, get_fee_cached, satoshi_to_currency, satoshi_to_currency_cached
from bit.transaction import address_to_scriptpubkey, calc_txid, deserialize

LEVEL = 'model_checking'
BOUNDS = ('31 operations x 2 sets of arguments (among them two wallets of different numbers of pages at each service and network, and two calls of one shared node connection); preemption points: before every line of library code and before every instruction storing to an attribute, item, global or closure variable (first 2 and last '
          'visit of each); one preemption: every operation against itself, and the others also against neighbours and state-sharing ones (thorough: all ordered pairs, and 3 threads); two preemptions: all points of the '
          'conversion, fee and query operations (thorough: more pairs); schedules of the state-keeping operations start from a new process')
ASSUMPTIONS = ['threads do not share wallets or reconfigure the library (cache times, nodes); C code of coincurve and the interpreter is atomic']
TECHNIQUE = 'systematic exploration of thread schedules of the real code under a controlled scheduler with a preemption bound'


# a wallet too large for one page, known to one service only: the pages of the first and of the second wallet differ in number
PAGED = {'blockchair': (1001, 2001), 'blockstream': (27, 52), 'smartbit': (3, 5), 'blockchain': (52, 102), 'bitcore': (101, 201)}
NODE = 'node.example:1'
_paged = {}


def paged_script(prov, net, v):
    return lib.spk(ref.p2pkh_addr(bytes([2]) + bytes.fromhex(fakenet.txid_for('c25', prov, v)), net))


def paged_world():
    if not _paged:
        w = fakenet.World()
        w.PAGE = dict(w.PAGE, smartbit=2)
        w.nodes[('http', NODE)] = 'test'
        home = {}
        for prov, sizes in PAGED.items():
            for net in ('main', 'test') if prov != 'blockchain' else ('main',):
                for v, n in enumerate(sizes):
                    a = w.addr(net, paged_script(prov, net, v))
                    a.coins = [fakenet.Entry(fakenet.txid_for(prov, net, v, i), i, 1000 + i, fakenet.TIP - i) for i in range(n)]
                    a.history = [(c.txid, c.height) for c in a.coins]
                    home[ref.p2pkh_addr(bytes([2]) + bytes.fromhex(fakenet.txid_for('c25', prov, v)), net)] = prov
        for v in (0, 1):
            s = lib.key_wallet('test', True, lib.SECRETS[v]).script
            for i in range(v + 1):
                w.add('test', s, fakenet.txid_for('node', v, i), i, 7000 + 10 * v + i)
        _paged['w'], _paged['home'] = w, home
    return _paged['w'], _paged['home']


def W():
    w = fakenet.World()
    for net in ('main', 'test'):
        for si in (0, 1):
            k = lib.key_wallet(net, True, lib.SECRETS[si])
            for j, s in enumerate((k.script, k.seg_script)):
                for n in range(si + 1):
                    w.add(net, s, fakenet.txid_for('c25', net, si, j, n), n, 50000 + 1000 * si + 10 * j + n, fakenet.TIP - 3 - n)
    m = fakenet.Money(price={'bitpay': {'usd': 20000, 'eur': 12500, 'jpy': 2500000}, 'blockchain': {'usd': 40000, 'eur': 25000, 'jpy': 5000000, 'gbp': 10000}})
    c = fakenet.combined(m, w)
    big, home = paged_world()

    def handler(q):
        if q.host.rpartition('@')[2] == NODE:
            d = json.loads(q.body)
            if d['method'].startswith('echo'):
                return (200, json.dumps({'result': [d['method'], d['params']], 'error': None})) if d['params'] else (500, json.dumps({'result': None, 'error': {'code': -1, 'message': d['method']}}))
            return big.handler(q)
        for a, prov in home.items():
            if a in q.url:
                return big.handler(q) if big.route(q)[0] == prov else (503, '')
        return c(q)

    return handler


def kw(v, net='main', comp=True):
    return lib.key_wallet(net, comp, lib.SECRETS[v])


def coins(w, *spec):
    return [w.coin(k, a, i) for i, (k, a) in enumerate(spec)]


def OPS():
    """name -> f(v) returning a thunk; v chooses one of two argument sets."""
    d = {n: lib.dests(n) for n in ('main', 'test')}
    O = {}

    def op(f):
        O[f.__name__] = f
        return f

    @op
    def legacy(v):
        w = kw(v)
        c = coins(w, ('L', 50000 + v), ('L', 70000))
        return lambda: w.obj.create_transaction([(d['main'][v], 60000 + v, 'satoshi')], fee=2 + v, unspents=c)

    @op
    def segwit(v):
        w = kw(v, ('main', 'test')[v])
        c = coins(w, ('S', 50000 + v), ('L', 70000))
        return lambda: w.obj.create_transaction([(d[w.net][2 + v], '0.0006', 'btc')], fee=2 + v, unspents=c, message='hello %d' % v)

    @op
    def uncompressed(v):
        w = kw(v, ('test', 'main')[v], False)
        c = coins(w, ('L', 90000 + v))
        return lambda: w.obj.create_transaction([(d[w.net][v], 100 + v, 'ubtc'), (d[w.net][3], 600, 'satoshi')], fee=500, absolute_fee=True, unspents=c, combine=False)

    @op
    def rbf(v):
        w = kw(v)
        c = coins(w, ('S', 50000 + v), ('S', 70000))
        return lambda: w.obj.create_transaction([(d['main'][1], 60000, 'satoshi')], fee=3, unspents=c, replace_by_fee=bool(v == 0))

    @op
    def multisig(v):
        ws = lib.multi_wallets('main', 2, lib.SECRETS[v:v + 3])
        c = coins(ws[0], ('LS'[v], 90000), ('S', 40000 + v))

        def f():
            t = ws[0].obj.create_transaction([(d['main'][v], 100000, 'satoshi')], fee=1, unspents=c)
            return ws[2].obj.sign_transaction(t, unspents=c)

        return f

    @op
    def offline(v):
        w = kw(v)
        c = coins(w, ('S', 50000 + v), ('L', 70000))

        def f():
            data = PrivateKey.prepare_transaction(w.addr, [(d['main'][v], 60000, 'satoshi')], fee=4, unspents=c, message='offline')
            return w.obj.sign_transaction(data)

        return f

    @op
    def batch(v):
        w, o = kw(v), kw(1 - v)
        c = coins(w, ('S', 50000 + v), ('L', 70000)) + [o.coin('L', 30000, 7)]
        t = ref.mktx([(u.txid, u.txindex, b'', u.sequence, []) for u in c], [(100000, lib.spk(d['main'][v]))], segwit=False).full().hex()

        def f():
            x = w.obj.sign_transaction(t, unspents=c)
            return x, o.obj.sign_transaction(x, unspents=c)

        return f

    @op
    def addresses(v):
        s = lib.wif(lib.SECRETS[v], ('main', 'test')[v], True)

        def f():
            k = bit.wif_to_key(s)
            return k.address, k.segwit_address, k.to_wif(), k.public_key.hex(), k.scriptcode.hex()

        return f

    @op
    def decode(v):
        a = d[('main', 'test')[v]]
        return lambda: [(address_to_scriptpubkey(x).hex(), get_version(x)) for x in a]

    @op
    def bad_address(v):
        a = ref.p2pkh_addr(lib.pubkey(lib.SECRETS[v]), 'main')[:-1] + 'zx'[v]
        return lambda: address_to_scriptpubkey(a)

    @op
    def keys(v):
        s = lib.SECRETS[v]

        def f():
            k = Key.from_int(s)
            return k.to_hex(), k.to_der().hex(), Key.from_pem(k.to_pem()).to_wif(), PrivateKeyTestnet.from_hex(k.to_hex()).to_wif()

        return f

    @op
    def message(v):
        s = lib.SECRETS[v]

        def f():
            k = Key.from_int(s)
            sig = k.sign(b'data %d' % v)
            return sig.hex(), k.verify(sig, b'data %d' % v), verify_sig(sig, b'other', k.public_key)

        return f

    @op
    def parse(v):
        w = kw(v)
        c = coins(w, ('S', 50000 + v), ('S', 60000))
        t = ref.mktx([(u.txid, u.txindex, b'\x16' * 23, u.sequence, [b'\x30' * 71, b'\x02' * 33]) for u in c], [(40000 + v, lib.spk(d['main'][v + 2]))], segwit=True).full().hex()

        def f():
            x = deserialize(t)
            return calc_txid(t), repr(x), x.legacy_repr() if hasattr(x, 'legacy_repr') else None

        return f

    @op
    def convert(v):
        return lambda: (currency_to_satoshi(12.5 + v, 'usd'), satoshi_to_currency(123456789 + v, 'jpy'), currency_to_satoshi('0.0001', ('mbtc', 'btc')[v]))

    @op
    def cached(v):
        return lambda: (currency_to_satoshi_cached(12.5 + v, ('usd', 'eur')[v]), satoshi_to_currency_cached(123456789 + v, 'jpy'), satoshi_to_currency_cached(5000 + v, 'mbtc'))

    @op
    def cached_same(v):
        return lambda: (currency_to_satoshi_cached(3 + v, 'usd'), satoshi_to_currency_cached(10**9 + v, 'usd'))

    @op
    def failover(v):
        return lambda: (currency_to_satoshi_cached(3 + v, 'gbp'), currency_to_satoshi_cached(7 + v, 'sek'))

    @op
    def fee(v):
        return lambda: (get_fee_cached(fast=not v), get_fee_cached(fast=bool(v)), get_fee_cached())

    @op
    def refresh(v):
        w = kw(v, ('main', 'test')[v])

        def f():
            b = w.obj.get_balance('satoshi')
            return b, sorted(netlib.coin_key(u) + (u.type,) for u in w.obj.unspents), sorted(w.obj.get_transactions())

        return f

    @op
    def spend_usd(v):
        w = kw(v)
        c = coins(w, ('S', 900000 + v))
        return lambda: w.obj.create_transaction([(d['main'][v], 10 + v, 'usd')], unspents=c)

    @op
    def insufficient(v):
        w = kw(v)
        c = coins(w, ('S', 9000 + v))
        return lambda: w.obj.create_transaction([(d['main'][v], 1, 'btc')], fee=1, unspents=c)

    def pages(prov, net):
        def make(v):
            a = ref.p2pkh_addr(bytes([2]) + bytes.fromhex(fakenet.txid_for('c25', prov, v)), net)

            def f():
                h = netlib.call('history', net, a) if prov != 'bitcore' else ()
                u = netlib.call('unspent', net, a)
                return len(h), len(u), fakenet.txid_for(list(h)), fakenet.txid_for([netlib.coin_key(x) for x in u])

            return f

        make.__name__ = 'pages_%s_%s' % (prov, net)
        op(make)

    for prov in PAGED:
        for net in ('main', 'test') if prov != 'blockchain' else ('main',):
            pages(prov, net)

    box = []

    @op
    def node(v):
        if not box:
            box.append(NetworkAPI.connect_to_node('u', 'p', host='node.example', port=1, testnet=True))
        n, a = box[0], lib.key_wallet('test', True, lib.SECRETS[v]).addr

        def f():
            out = [n.echo(v, 'x'), n.echo.more(v), NetworkAPI.get_balance_testnet(a), n.get_transactions(a), [netlib.coin_key(u) for u in NetworkAPI.get_unspent_testnet(a)]]
            try:
                out.append(n.echoerror())
            except Exception as e:
                out.append((type(e).__name__, str(e)))
            return out

        return f

    return O


NEW = ['node']  # these change the process, so every schedule starts from a new one
STATEFUL = ['cached', 'cached_same', 'failover', 'fee', 'spend_usd']
SMALL = ['convert', 'cached', 'cached_same', 'failover', 'fee', 'decode', 'message', 'bad_address']
_alone = {}


def run_alone(name, v):
    env.reset(handler=W())
    t = OPS()[name](v)
    return sched.Sched([t], record=False).run()[0]


def record(name, v):
    env.reset(handler=W())
    t = OPS()[name](v)
    s = sched.Sched([t], record=True)
    s.run()
    return s.trace


def alone(name, v):
    k = (name, v)
    if k not in _alone:
        _alone[k] = isolated(run_alone, name, v)
    return _alone[k]


def one(pair, first, switches, warm):
    """One schedule.  pair: ((name, v), ...)"""
    if warm:
        env.STATE.now += 10**6
        env.NET.reset(W(), budget=10**6)
        env.STATE.chooser = env.Chooser()
    else:
        env.reset(handler=W())
    O = OPS()
    fns = [O[n](v) for n, v in pair]
    s = sched.Sched(fns, first, switches)
    return s.run(), s.preempted


def judge(ctx, pair, first, switches, warm):
    ctx.case((pair, first, tuple(switches), 'warm' if warm else 'new'), calls=1)
    if warm:
        res, n = one(pair, first, switches, True)
    else:
        res, n = isolated(one, pair, first, switches, False)
    ctx.step(n)
    for (name, v), r in zip(pair, res):
        want = alone(name, v)
        if r != want:
            raise Violation('%s with %r, first thread %d, switches %r: %s(%d) gives %r, alone %r' % (name, pair, first, switches, name, v, r, want))
    return n


def partners(name, tier):
    names = list(OPS())
    pages = [n for n in names if n.startswith('pages_')]
    if name in NEW:
        return [name] + ([n for n in names if n not in pages + ['refresh']] if tier != 'quick' else ['message', 'fee'])
    if name in pages:
        return [name] if tier == 'quick' else [name] + [n for n in pages if n != name and n.split('_')[1] == name.split('_')[1]] + ['refresh', 'legacy']
    names = [n for n in names if n not in pages + NEW]
    if tier != 'quick':
        return names
    i = names.index(name)
    out = [name, names[(i + 1) % len(names)], names[(i + 7) % len(names)]]
    if name in STATEFUL:
        out += STATEFUL
    return list(dict.fromkeys(out))


def units(tier):
    us = []
    for name in OPS():
        for p in partners(name, tier):
            # heavy operations in several parts
            for k in range(4):
                us.append({'t': 'pair', 'a': name, 'b': p, 'part': k})
    for a in STATEFUL[:4]:
        for b in STATEFUL[:4]:
            us.append({'t': 'two', 'a': a, 'b': b})
    for a, b in (('convert', 'decode'), ('convert', 'convert'), ('decode', 'bad_address'), ('message', 'convert')) if tier == 'quick' else itertools.product(SMALL, SMALL):
        for k in range(4):
            us.append({'t': 'two-warm', 'a': a, 'b': b, 'part': k})
    if tier != 'quick':
        for a in STATEFUL:
            for b in STATEFUL:
                us.append({'t': 'three', 'a': a, 'b': b})
    return us


def run_unit(ctx, u):
    a, b = u['a'], u['b']
    pair = ((a, 0), (b, 1))
    T = u['t']
    tr = isolated(record, a, 0)
    pts = sched.selected(tr, 2 if T == 'pair' else 1)
    stateful = a in STATEFUL or b in STATEFUL
    if T == 'pair':
        for i in pts[u['part']::4]:
            fresh = a in NEW or b in NEW
            if not fresh:
                judge(ctx, pair, 0, [i], True)
            if stateful or fresh:
                judge(ctx, pair, 0, [i], False)
        ctx.outcome('one preemption')
    elif T in ('two', 'two-warm'):
        trb = isolated(record, b, 1)
        ptb = sched.selected(trb, 1)
        if T == 'two-warm':
            pts = pts[u['part']::4]
        for i in pts:
            for j in ptb:
                judge(ctx, pair, 0, [i, j], True)
        if T == 'two':
            step = 1 if ctx.tier != 'quick' else 3
            for n, i in enumerate(pts):
                for j in ptb[n % step::step]:
                    judge(ctx, pair, 0, [i, j], False)
        ctx.outcome('two preemptions')
    elif T == 'three':
        for c in STATEFUL:
            tri = (('%s' % a, 0), (b, 1), (c, 0))
            ptb = sched.selected(isolated(record, b, 1), 1)
            for i in pts[::2]:
                for j in ptb[::2]:
                    judge(ctx, tri, 0, [i, j], True)
        ctx.outcome('three threads')
