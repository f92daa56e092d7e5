"""C21: conversions for enumerated amounts, forms, rates and call histories."""
import decimal
import itertools
from fractions import Fraction

from .. import env, fakenet, harvest, lib, netlib, refbtc as ref
from ..explorer import Violation, isolated
from bit.network import NetworkAPI, currency_to_satoshi, currency_to_satoshi_cached, satoshi_to_currency, satoshi_to_currency_cached
from bit.network.rates import EXCHANGE_RATES, SUPPORTED_CURRENCIES
from bit.utils import Decimal as BDecimal

LEVEL = 'model_checking'
BOUNDS = ('bitcoin units: every satoshi amount 0..60000 (thorough 0..3M), every amount with <=3 non-zero digits at any scale, ~900 boundary amounts to 21M BTC, each as int, float, string (plain, '
          'exponent, padded), decimal; sub-satoshi parts; fiat: 21 currencies x 2 services x 37 prices (units worth 1e8 down to 1/60 satoshi) x 60 amounts; every ordered pair of 24 library calls followed by all probes; 64 decimal contexts the caller may have set')
ASSUMPTIONS = ['amounts have at most 18 significant digits; a rate is known to 28 significant digits, so a result that is exact at the last digit may come out one unit of that digit lower']
TECHNIQUE = 'exhaustive enumeration of amounts, forms and call histories against exact rational arithmetic'

UNIT = {'satoshi': 1, 'ubtc': 100, 'mbtc': 10**5, 'btc': 10**8}
PREC = {'satoshi': 0, 'ubtc': 2, 'mbtc': 5, 'btc': 8, 'jpy': 0, 'krw': 0, 'clp': 0}
FIAT = ['usd', 'eur', 'gbp', 'jpy', 'cny', 'cad', 'aud', 'nzd', 'rub', 'brl', 'chf', 'sek', 'dkk', 'isk', 'pln', 'hkd', 'krw', 'sgd', 'thb', 'twd', 'clp']
MAXM = 21 * 10**14


def plain(fr, digits):
    """Fraction rounded towards zero to ``digits`` decimals, no exponent, no
    superfluous zeros."""
    n = int(fr * 10**digits)
    s = '%d' % n
    if digits:
        s = s.rjust(digits + 1, '0')
        s = (s[:-digits] + '.' + s[-digits:]).rstrip('0').rstrip('.')
    return s


def forms(s, unit):
    """Everything a caller might write for s satoshi in ``unit``."""
    k = len(str(unit)) - 1
    t = plain(Fraction(s, unit), k)
    yield t
    yield decimal.Decimal(t)
    yield BDecimal(t)
    yield s / unit
    if s % unit == 0:
        yield s // unit
    yield '%de-%d' % (s, k)
    yield '+' + t if '.' in t else t + '.0'
    yield t + '0' * 3 if '.' in t else '0' + t
    yield decimal.Decimal(s).scaleb(-k)


def amounts(tier):
    out = set(harvest.amounts(lo=0)) | {0}
    for e in range(0, 14):
        for m in range(1, 1000):
            v = m * 10**e
            if v <= MAXM:
                out.add(v)
    for k in range(0, 51):
        out.add(MAXM >> k)
        out.add(MAXM - (1 << k))
    return sorted(out)


def units(tier):
    top = 60000 if tier == 'quick' else 3_000_000
    step = 7500 if tier == 'quick' else 50_000
    us = [{'t': 'range', 'lo': lo, 'hi': lo + step} for lo in range(0, top, step)]
    us += [{'t': 'list', 'k': k} for k in range(8)]
    us += [{'t': 'sub'}, {'t': 'mapping'}] + [{'t': 'context', 'k': k} for k in range(4)]
    us += [{'t': 'fiat', 'cur': c} for c in FIAT]
    us += [{'t': 'hist', 'k': k} for k in range(len(OPS()))]
    return us


def exact(ctx, s, u, full):
    unit = UNIT[u]
    ctx.case((s, u), calls=4)
    k = len(str(unit)) - 1
    for n, a in enumerate(forms(s, unit)):
        if not full and n not in (0, 3, 4):
            continue
        for f in (currency_to_satoshi, currency_to_satoshi_cached) if full or n == 3 else (currency_to_satoshi_cached,):
            r = f(a, u)
            if r != s or type(r) is not int:
                ctx.fail('%s(%r, %r) is %r, exactly %d satoshi' % (f.__name__, a, u, r, s))
    for f in (satoshi_to_currency, satoshi_to_currency_cached):
        r = f(s, u)
        want = plain(Fraction(s, unit), k)
        if r != want or type(r) is not str:
            ctx.fail('%s(%d, %r) is %r, exactly %s' % (f.__name__, s, u, r, want))
    back = currency_to_satoshi(r, u)
    if back != s:
        ctx.fail('%d satoshi to %s and back is %r' % (s, u, back))


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'range':
        for s in range(u['lo'], u['hi']):
            for c in UNIT:
                exact(ctx, s, c, s % 16 == 0)
        ctx.outcome('exact')
    elif T == 'list':
        for s in amounts(ctx.tier)[u['k']::8]:
            for c in UNIT:
                exact(ctx, s, c, True)
        ctx.outcome('exact')
    elif T == 'sub':
        # parts of a satoshi are dropped, never rounded up
        for s in (0, 1, 2, 99, 546, 10**8 - 1, 10**8, 123456789, 21 * 10**14 - 1):
            for c, unit in UNIT.items():
                k = len(str(unit)) - 1
                for frac in ('1', '5', '9', '99', '49', '999', '500001', '01', '99999'):
                    base = '%d' % s
                    base = (base.rjust(k + 1, '0')[:-k] + '.' + base.rjust(k + 1, '0')[-k:]) if k else base + '.'
                    if len((base + frac).replace('.', '').lstrip('0')) > 18:
                        continue
                    for a in (base + frac, decimal.Decimal(base + frac)):
                        ctx.case(('sub', s, c, repr(a)))
                        ctx.eq(currency_to_satoshi(a, c), s, 'currency_to_satoshi(%r, %r)' % (a, c))
                        ctx.eq(currency_to_satoshi_cached(a, c), s, 'currency_to_satoshi_cached(%r, %r)' % (a, c))
    elif T == 'mapping':
        mapping(ctx)
    elif T == 'context':
        contexts(ctx, u['k'])
    elif T == 'fiat':
        fiat(ctx, u['cur'])
    elif T == 'hist':
        hist(ctx, u['k'])


PRICES = ['1', '1.5', '2', '3', '7', '99.99', '100', '333.33', '1000', '5000', '6543.21', '9999.99', '10000', '12345.67', '20000', '29999.5', '33333.33', '60000', '65536', '99999.99', '100000', '123456',
          '999999', '1000000', '3000000', '7654321', '16777216', '33333333', '50000000', '100000000', '100000001', '143210987.5', '150000000', '300000000', '1234567890', '3000000000', '6000000000']


def worth(prov, price):
    """Satoshi per unit at the service's quotation, a fraction."""
    if prov == 'bitpay':
        return Fraction(10**8) / Fraction(str(price))
    # the service rounds its quotation to 8 decimals
    return Fraction((decimal.Decimal(1) / decimal.Decimal(str(price))).quantize(decimal.Decimal('0.00000001'))) * 10**8


def finite(rate):
    """Whether the rate has at most 28 significant digits."""
    d = rate.denominator
    for p in (2, 5):
        while d % p == 0:
            d //= p
    if d != 1:
        return False
    k = 0
    while (rate * 10**k).denominator != 1:
        k += 1
    return len(str((rate * 10**k).numerator)) <= 28


def sat(a, rate):
    """What ``a`` units may be in satoshi."""
    x = Fraction(decimal.Decimal(str(a))) * rate
    return {int(x)} if x.denominator != 1 or finite(rate) or not x else {int(x), int(x) - 1}


def money(s, rate, prec):
    """What ``s`` satoshi may be in a currency."""
    x = s / rate
    out = {plain(x, prec)}
    if x and not finite(rate) and (x * 10**prec).denominator == 1:
        out.add(plain(x - Fraction(1, 10**prec), prec))
    return out


def among(ctx, got, want, what):
    if got not in want or type(got) is not type(next(iter(want))):
        ctx.fail('%s is %r, exactly %s' % (what, got, max(want)))


def fiat(ctx, cur):
    prec = PREC.get(cur, 2)
    for price in PRICES:
        for prov in ('bitpay', 'blockchain'):
            rate = worth(prov, price)
            if not rate:
                continue
            M = fakenet.Money(price={prov: {cur: price}})
            if prov == 'blockchain':
                M.fault = lambda p, c, i: (500, '') if p == 'bitpay' else None
            env.NET.reset(M.handler)
            env.STATE.now += 10**6  # whatever was cached is stale
            at = ' at a price of %s (%s)' % (price, prov)
            for a in (1, 0, 2, 10, '0.01', '0.1', 0.1, 0.07, 19.99, '19.99', 100, '1234.56', 1234.56, decimal.Decimal('3.33'), 999999, '0.005', 10**6, 0.30000000000000004, '1e2', '7.0'):
                want = sat(a, rate)
                ctx.case((cur, prov, price, repr(a)), calls=2)
                among(ctx, currency_to_satoshi(a, cur), want, 'currency_to_satoshi(%r, %r)' % (a, cur) + at)
                among(ctx, currency_to_satoshi_cached(a, cur), want, 'currency_to_satoshi_cached(%r, %r)' % (a, cur) + at)
            n = int(rate)
            for s in (0, 1, 2, max(n - 1, 0), n, n + 1, n // 100, n // 100 + 1, int(2 * rate), int(3 * rate), 546, 10**8 - 1, 10**8, 10**8 + 1, 123456789, 10**12, MAXM - 1, MAXM, int(100 * rate), int(1000 * rate) + 1):
                want = money(s, rate, prec)
                ctx.case((cur, prov, price, 's', s), calls=2)
                among(ctx, satoshi_to_currency(s, cur), want, 'satoshi_to_currency(%d, %r)' % (s, cur) + at)
                among(ctx, satoshi_to_currency_cached(s, cur), want, 'satoshi_to_currency_cached(%d, %r)' % (s, cur) + at)
            if len(M.log) > 41 * (1 if prov == 'bitpay' else 2) + 40:
                ctx.fail('%d requests for 40 conversions and 40 cached ones of %s' % (len(M.log), cur) + at)
            ctx.outcome('%s %s' % (prov, cur))


def all_contexts():
    D = decimal
    for prec in (1, 2, 6, 9, 15, 27, 28, 50):
        for r in (D.ROUND_UP, D.ROUND_DOWN, D.ROUND_CEILING, D.ROUND_FLOOR, D.ROUND_HALF_UP, D.ROUND_HALF_EVEN, D.ROUND_05UP):
            if prec in (6, 28) or r in (D.ROUND_UP, D.ROUND_CEILING):
                yield 'prec %d, %s' % (prec, r), dict(prec=prec, rounding=r)
    base = [D.InvalidOperation, D.DivisionByZero, D.Overflow]
    for t in (D.Inexact, D.Rounded, D.Subnormal, D.Underflow, D.Clamped):
        for prec in (6, 28, 50):
            yield 'prec %d, traps %s' % (prec, t.__name__), dict(prec=prec, traps=base + [t])
    for prec in (6, 28):
        yield 'prec %d, no traps' % prec, dict(prec=prec, traps=[])
        yield 'prec %d, small exponents' % prec, dict(prec=prec, Emax=prec, Emin=-2)
        yield 'prec %d, lower case' % prec, dict(prec=prec, capitals=0)
        yield 'prec %d, clamp' % prec, dict(prec=prec, clamp=1, Emax=40, Emin=-40)
        yield 'extended', decimal.ExtendedContext
        yield 'basic', decimal.BasicContext


def settings(c):
    return c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, dict(c.traps)


CTX_AMOUNTS = [0, 1, 9, 10, 99, 101, 546, 999999, 1000001, 12345678, 99999999, 10**8, 123456789, 1234567891, 9999999999, 10**10, 987654321987654, 2099999997690001, 2099999999999999, MAXM]


def contexts(ctx, k):
    for name, c in list(all_contexts())[k::4]:
        if isinstance(c, dict):
            d = dict(prec=28, rounding=decimal.ROUND_HALF_EVEN, Emax=999999, Emin=-999999, capitals=1, clamp=0, flags=[], traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])
            d.update(c)
            c = decimal.Context(**d)
        c = c.copy()
        c.clear_flags()

        def under(f, *a):
            old = decimal.getcontext()
            decimal.setcontext(c)
            try:
                r = f(*a)
                same = decimal.getcontext() is c
                attrs = settings(c)
            finally:
                decimal.setcontext(old)
            if not same or attrs != before:
                raise Violation('%s changed the caller\'s decimal context' % f.__name__)
            return r

        before = settings(c)
        for s in CTX_AMOUNTS:
            for u, unit in UNIT.items():
                for a in forms(s, unit):
                    ctx.case((name, s, u, repr(a)), calls=2)
                    for f in (currency_to_satoshi, currency_to_satoshi_cached):
                        ctx.eq(under(f, a, u), s, '%s(%r, %r) with the decimal context %s' % (f.__name__, a, u, name))
                for f in (satoshi_to_currency, satoshi_to_currency_cached):
                    ctx.case((name, s, u, f.__name__))
                    ctx.eq(under(f, s, u), plain(Fraction(s, unit), PREC[u]), '%s(%d, %r) with the decimal context %s' % (f.__name__, s, u, name))
        for price in ('1.5', '333.33', '29999.5', '7654321', '143210987.5'):
            rate = worth('bitpay', price)
            M = fakenet.Money(price={'bitpay': {'usd': price, 'jpy': price}})
            env.NET.reset(M.handler)
            env.STATE.now += 10**6
            for cur in ('usd', 'jpy'):
                for a in (1, '0.07', 19.99, decimal.Decimal('1234567.89'), 999999):
                    want = sat(a, rate)
                    ctx.case((name, price, cur, repr(a)), calls=2)
                    for f in (currency_to_satoshi, currency_to_satoshi_cached):
                        among(ctx, under(f, a, cur), want, '%s(%r, %r) at a price of %s with the decimal context %s' % (f.__name__, a, cur, price, name))
                for s in (0, 1, int(rate) - 1, int(rate), int(3 * rate), 123456789, MAXM - 1):
                    want = money(s, rate, PREC.get(cur, 2))
                    ctx.case((name, price, cur, 's', s), calls=2)
                    for f in (satoshi_to_currency, satoshi_to_currency_cached):
                        among(ctx, under(f, s, cur), want, '%s(%d, %r) at a price of %s with the decimal context %s' % (f.__name__, s, cur, price, name))
        # and through the wallets
        for net in ('main', 'test'):
            w = lib.key_wallet(net)
            for s in (1, 546, 12345679, 123456789, 987654321987654):
                ctx.case((name, net, 'wallet', s))
                tx = under(lambda: w.obj.create_transaction([(lib.dests(net)[0], plain(Fraction(s, 10**8), 8), 'btc')], fee=1, absolute_fee=True, unspents=[w.coin('L', s + 1, 0)]))
                ctx.eq([o.amount for o in ref.parse(tx).outs], [s], 'amounts paid with the decimal context ' + name)
                w.obj.balance = s
                ctx.eq(under(lambda: w.obj.balance_as('btc')), plain(Fraction(s, 10**8), 8), 'balance with the decimal context ' + name)
        ctx.outcome('any context')


def mapping(ctx):
    """All currencies at once, each with its own price at each service."""
    table = {p: {c: 100 + 37 * i + (5000 if p == 'blockchain' else 0) for i, c in enumerate(FIAT)} for p in ('bitpay', 'blockchain')}
    ctx.eq(sorted(EXCHANGE_RATES), sorted(list(UNIT) + FIAT), 'supported currencies')
    ctx.eq(sorted(SUPPORTED_CURRENCIES), sorted(list(UNIT) + FIAT), 'documented currencies')
    w = lib.key_wallet('main').obj
    for prov in ('bitpay', 'blockchain'):
        M = fakenet.Money(price=table)
        if prov == 'blockchain':
            M.fault = lambda p, c, i: (503, '') if p == 'bitpay' else None
        env.NET.reset(M.handler)
        env.STATE.now += 10**6
        for c in FIAT + FIAT[::-1]:
            ctx.case((prov, c), calls=5)
            rate = worth(prov, table[prov][c])
            among(ctx, currency_to_satoshi(1, c), sat(1, rate), 'rate of ' + c)
            among(ctx, currency_to_satoshi_cached(3, c), sat(3, rate), 'cached rate of ' + c)
            want = money(10**9, rate, PREC.get(c, 2))
            among(ctx, satoshi_to_currency(10**9, c), want, 'in ' + c)
            among(ctx, satoshi_to_currency_cached(10**9, c), want, 'in ' + c)
            w.balance = 10**9
            among(ctx, w.balance_as(c), want, 'balance in ' + c)
            ctx.outcome(c)
        for c, unit in UNIT.items():
            ctx.eq(w.balance_as(c), plain(Fraction(10**9, unit), PREC[c]), 'balance in ' + c)


def OPS():
    """Library calls that might leave something behind."""
    w = lambda net='main', c=True: lib.key_wallet(net, c)
    d = lib.dests('main')
    coin = lambda: [w().coin('L', 90000, 0), w().coin('S', 80000, 1)]

    def node(net):
        def f():
            n = NetworkAPI.connect_to_node('u', 'p', host='node.example', port=1, testnet=net == 'test')
            netlib.call('balance', net, w(net).addr)
            netlib.call('unspent', net, w(net).addr)
            netlib.call('history', net, w(net).addr)
            n.getbalance()
        return f

    def fail(fn):
        def f():
            h = env.NET.handler
            env.NET.reset(None)
            try:
                fn()
            except Exception:
                pass
            env.NET.reset(h)
        return f

    def bad(fn):
        def f():
            try:
                fn()
            except Exception:
                pass
        return f

    return [
        ('node main', node('main')), ('node test', node('test')), ('balance', lambda: netlib.call('balance', 'main', w().addr)), ('unspent', lambda: netlib.call('unspent', 'test', w('test').addr)),
        ('history', lambda: netlib.call('history', 'main', w().addr)), ('refresh', lambda: w().obj.get_balance('usd')), ('to sat', lambda: currency_to_satoshi(3, 'usd')),
        ('to sat cached', lambda: currency_to_satoshi_cached('0.1', 'usd')), ('from sat', lambda: satoshi_to_currency(10**15 + 7, 'jpy')), ('from sat cached', lambda: satoshi_to_currency_cached(7, 'eur')),
        ('btc', lambda: currency_to_satoshi('20999999.97690000', 'btc')), ('tiny', lambda: satoshi_to_currency(1, 'btc')),
        ('create', lambda: w().obj.create_transaction([(d[0], '0.0001', 'btc')], fee=1, unspents=coin())), ('create usd', lambda: w().obj.create_transaction([(d[0], 2, 'usd')], fee=1, unspents=coin())),
        ('prepare', lambda: type(w().obj).prepare_transaction(w().addr, [(d[0], 2.5, 'usd')], unspents=coin())),
        ('insufficient', bad(lambda: w().obj.create_transaction([(d[0], 9, 'btc')], fee=1, unspents=coin()))), ('bad amount', bad(lambda: currency_to_satoshi('1,5', 'btc'))),
        ('bad currency', bad(lambda: currency_to_satoshi(1, 'xyz'))), ('rates down', fail(lambda: currency_to_satoshi(1, 'usd'))), ('cached rates down', fail(lambda: satoshi_to_currency_cached(5, 'gbp'))),
        ('network down', fail(lambda: netlib.call('balance', 'main', w().addr))), ('fee', lambda: __import__('bit').network.get_fee_cached()),
        ('multisig', lambda: lib.multi_wallets('main', 2, lib.SECRETS[:3])[0].obj.get_balance('btc')), ('later', lambda: setattr(env.STATE, 'now', env.STATE.now + 10**5)),
    ]


def world():
    W = fakenet.World()
    W.nodes[('http', 'node.example:1')] = 'main'
    for net in ('main', 'test'):
        for c in (lib.key_wallet(net),):
            for s in (c.script, c.seg_script):
                W.add(net, s, fakenet.txid_for(s), 0, 123456789012, fakenet.TIP)
    M = fakenet.Money(price={'bitpay': {'usd': '33333.33', 'eur': 20000, 'jpy': 3000000, 'gbp': 15000}})
    rpc = W.rpc

    def node(net, q):
        # serve whichever network the address belongs to
        import json

        c = json.loads(q.body)
        if c['method'] == 'getbalance':
            return 200, '{"result":12.34567891,"error":null}'
        a = [x for x in c['params'] if isinstance(x, str)] + [y for x in c['params'] if isinstance(x, list) for y in x]
        return rpc('test' if a and a[0][0] in 'mn2' else 'main', q)

    W.rpc = node
    return fakenet.combined(M, W)


PROBES = [('btc', 's', 1), ('btc', 's', MAXM), ('btc', 's', 2099999997690001), ('btc', 'c', '20999999.97690001'), ('btc', 'c', 0.00000001), ('mbtc', 'c', '99999.99999'), ('usd', 'c', '1234567.89'), ('usd', 's', MAXM - 1),
          ('jpy', 's', MAXM - 1), ('eur', 'c', '98765432.11'), ('ubtc', 's', 123456789012345), ('gbp', 's', 999999999999)]


def probe():
    out = []
    for cur, kind, a in PROBES:
        for f in ((satoshi_to_currency, satoshi_to_currency_cached) if kind == 's' else (currency_to_satoshi, currency_to_satoshi_cached)):
            out.append(f(a, cur))
    w = lib.key_wallet('main').obj
    w.balance = 2099999997690000
    out += [w.balance_as('btc'), w.balance_as('usd')]
    return out


def fresh():
    env.reset(handler=world())
    return probe()


def after(names):
    env.reset(handler=world())
    ops = dict(OPS())
    for n in names:
        try:
            ops[n]()
        except ConnectionError:
            pass
    h = env.NET.handler
    env.NET.reset(world())
    return probe()


def hist(ctx, k):
    names = [n for n, _ in OPS()]
    want = isolated(fresh)
    first = names[k]
    for rest in [()] + [(n,) for n in names] + ([(a, b) for a in names for b in names] if ctx.tier != 'quick' else [(n, first) for n in names]):
        ops = (first,) + rest
        ctx.case(('history', ops), calls=len(ops))
        got = isolated(after, ops)
        if got != want:
            i = next(i for i in range(len(want)) if got[i] != want[i])
            ctx.fail('after %r a conversion gives %r instead of %r' % (ops, got[i], want[i]))
    # and the probes themselves are right
    rate = {c: worth('bitpay', p) for c, p in (('usd', '33333.33'), ('jpy', 3000000), ('eur', 20000), ('gbp', 15000))}
    i = 0
    for cur, kind, a in PROBES:
        r = Fraction(UNIT.get(cur) or rate[cur])
        exp = money(a, r, PREC.get(cur, 2)) if kind == 's' else sat(a, r)
        among(ctx, want[i], exp, 'probe %r' % ((cur, kind, a),))
        among(ctx, want[i + 1], exp, 'cached probe %r' % ((cur, kind, a),))
        i += 2
    ctx.outcome('history')
