"""Simulated providers: one chain state, served in the wire format of every
service the library talks to (public documentation of the services and the
recorded shapes in the library's own clients), with the services' page sizes.
Written independently of the clients: a request that is not part of a
service's interface answers 404 and is recorded in ``unknown``."""
import hashlib
import json
from decimal import ROUND_HALF_EVEN, Context, Decimal

from . import refbtc as ref

TIP = 800_000
BTC = 10**8


class Entry:
    __slots__ = ('txid', 'n', 'amount', 'height')

    def __init__(self, txid, n, amount, height):
        self.txid, self.n, self.amount, self.height = txid, n, amount, height


def age(e):
    return float('-inf') if e[1] is None else -e[1]


class Addr:
    def __init__(self):
        self.coins = []  # unspent entries
        self._history = []  # (txid, height or None)
        self.received = 0
        self.spent = 0

    @property
    def balance(self):
        return sum(c.amount for c in self.coins)

    @property
    def history(self):
        return self._history

    @history.setter
    def history(self, h):
        self._history = h

    def timeline(self):
        """Newest first, as the services list it: unconfirmed, then by height."""
        return sorted(self._history, key=age)

    def in_order(self, ids):
        """Do the ids of this address follow each other from newest to oldest?"""
        h = dict(self._history)
        ages = [age((t, h[t])) for t in ids if t in h]
        return all(x <= y for x, y in zip(ages, ages[1:]))


class NotFound(Exception):
    pass


def txid_for(*k):
    return hashlib.sha256(repr(k).encode()).hexdigest()


class World:
    """providers: 'blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain', 'rpc'"""

    PAGE = {'blockchair': 1000, 'blockstream': 25, 'bitcore': 100, 'smartbit': 1000, 'blockchain_tx': 50, 'blockchain_utxo': 1000}

    def __init__(self, excess=None):
        self.net = {'main': {}, 'test': {}}  # script -> Addr
        self.tx = {'main': {}, 'test': {}}
        self.seen = []  # (provider, net, kind)
        self.unknown = []
        self.accept = None  # (provider, net, hex) -> bool
        self.offered = []  # (provider, net, hex)
        self.excess = excess  # blockstream refuses addresses above this many entries
        self.fault = None  # (provider, net, kind, index) -> None | (status, body) | exception
        self.count = 0
        self.nodes = {}  # (scheme, host) -> net
        self.tip = {'main': TIP, 'test': TIP}

    def addr(self, net, script):
        return self.net[net].setdefault(script, Addr())

    def add(self, net, script, txid, n, amount, height=TIP - 5, history=True):
        a = self.addr(net, script)
        a.coins.append(Entry(txid, n, amount, height))
        a.received += amount
        if history and txid not in [t for t, _ in a.history]:
            a.history.append((txid, height))
        return a

    def spend(self, net, script, txid, amount, height=TIP - 9):
        """A spent output: received and spent, both in the history."""
        a = self.addr(net, script)
        a.received += amount
        a.spent += amount
        a.history.append((txid, height))
        a.history.append((txid_for('spender', txid), height))
        return a

    # ------------------------------------------------------------- requests
    def handler(self, q):
        p = self.route(q)
        prov, net, kind, fn = p
        self.seen.append((prov, net, kind))
        i = self.count
        self.count += 1
        if self.fault is not None:
            f = self.fault(prov, net, kind, i)
            if f is not None:
                if isinstance(f, BaseException):
                    raise f
                return f
        try:
            r = fn()
        except NotFound:
            return 404, '{"error":"not found"}'
        if isinstance(r, tuple):
            return r
        if isinstance(r, str):
            return 200, r
        return 200, json.dumps(r, default=_dec)

    def get(self, net, address):
        try:
            got, script = ref.decode_address(address)
        except ref.Invalid:
            return None, None
        if got != net:
            return None, None
        return self.net[net].get(script, Addr()), script

    def route(self, q):
        path, h = q.path, q.host
        for (scheme, host), net in self.nodes.items():
            if h.rpartition('@')[2] == host:
                return ('rpc:' + host, net, 'rpc', lambda: self.rpc(net, q))
        if h == 'api.blockchair.com':
            net = 'test' if path.startswith('/bitcoin/testnet/') else 'main'
            rest = path[len('/bitcoin/testnet/' if net == 'test' else '/bitcoin/'):]
            return self.r_blockchair(net, rest, q)
        if h == 'blockstream.info':
            net = 'test' if path.startswith('/testnet/') else 'main'
            rest = path[len('/testnet/api/' if net == 'test' else '/api/'):]
            return self.r_blockstream(net, rest, q)
        if h == 'api.bitcore.io':
            for net, pre in (('main', '/api/BTC/mainnet/'), ('test', '/api/BTC/testnet/')):
                if path.startswith(pre):
                    return self.r_bitcore(net, path[len(pre):], q)
        if h in ('api.smartbit.com.au', 'testnet-api.smartbit.com.au'):
            net = 'main' if h.startswith('api') else 'test'
            return self.r_smartbit(net, path[len('/v1/blockchain/'):], q)
        if h == 'blockchain.info':
            return self.r_blockchain('main', path[1:], q)
        self.unknown.append(q.url)
        return ('unknown', None, q.url, self._nf)

    def _nf(self):
        raise NotFound

    def _unknown(self, prov, net, q):
        self.unknown.append(q.url)
        return (prov, net, 'unknown', self._nf)

    def push(self, prov, net, tx):
        self.offered.append((prov, net, tx))
        return self.accept(prov, net, tx) if self.accept else True

    # ---- blockchair
    def r_blockchair(self, net, rest, q):
        P = 'blockchair'
        if rest.startswith('dashboards/address/'):
            a, script = self.get(net, rest.split('/')[2])
            address = rest.split('/')[2]

            def fn():
                if a is None:
                    return 404, '{"data":null}'
                lim, off = q.query.get('limit', '100').split(',')[0], q.query.get('offset', '0').split(',')[0]
                lim, off = min(int(lim), self.PAGE[P]), int(off)
                latest = q.query.get('state') == 'latest'  # documented: leaves out the unconfirmed
                return {'data': {address: {
                    'address': {'type': 'pubkeyhash', 'script_hex': script.hex(), 'balance': a.balance, 'received': a.received, 'spent': a.spent,
                                'unspent_output_count': len(a.coins), 'transaction_count': len(a.history)},
                    'transactions': [t for t, h in a.timeline() if h is not None or not latest][off:off + lim],
                    'utxo': [{'block_id': c.height if c.height is not None else -1, 'transaction_hash': c.txid, 'index': c.n, 'value': c.amount}
                             for c in a.coins if c.height is not None or not latest][off:off + lim]}},
                    'context': {'code': 200, 'state': self.tip[net], 'limit': '%d,%d' % (lim, lim), 'offset': '%d,%d' % (off, off)}}

            return P, net, 'address', fn
        if rest.startswith('raw/transaction/'):
            t = rest.split('/')[2]

            def fn():
                raw = self.tx[net].get(t)
                return {'data': {t: {'raw_transaction': raw}} if raw else None, 'context': {'code': 200}}

            return P, net, 'tx', fn
        if rest == 'push/transaction' and q.method == 'POST':
            def fn():
                tx = _form(q).get('data')
                if self.push(P, net, tx):
                    return {'data': {'transaction_hash': txid_of(tx)}, 'context': {'code': 200}}
                return 400, '{"data":null,"context":{"code":400,"error":"Invalid transaction"}}'

            return P, net, 'push', fn
        return self._unknown(P, net, q)

    # ---- blockstream (esplora)
    def r_blockstream(self, net, rest, q):
        P = 'blockstream'
        if rest == 'blocks/tip/height':
            return P, net, 'tip', lambda: str(self.tip[net])
        parts = rest.split('/')
        if parts[0] == 'address':
            a, script = self.get(net, parts[1])
            tail = parts[2:]

            def st(h):
                return {'confirmed': True, 'block_height': h, 'block_hash': 'ab' * 32, 'block_time': 1} if h is not None else {'confirmed': False}

            def fn():
                if a is None:
                    return 400, 'Invalid Bitcoin address'
                conf = [(t, h) for t, h in a.timeline() if h is not None]
                mem = [(t, h) for t, h in a.timeline() if h is None]
                if not tail:
                    fc = sum(c.amount for c in a.coins if c.height is not None) + a.spent
                    fm = sum(c.amount for c in a.coins if c.height is None)
                    half = a.spent // 2
                    return {'address': parts[1], 'chain_stats': {'funded_txo_sum': fc, 'spent_txo_sum': half, 'funded_txo_count': 1, 'tx_count': len(conf)},
                            'mempool_stats': {'funded_txo_sum': fm, 'spent_txo_sum': a.spent - half, 'tx_count': len(mem)}}
                if tail == ['utxo']:
                    if self.excess is not None and len(a.coins) > self.excess:
                        return 400, 'Too many history entries'
                    return [{'txid': c.txid, 'vout': c.n, 'value': c.amount, 'status': st(c.height)} for c in a.coins]
                if tail == ['txs', 'mempool']:
                    return [{'txid': t, 'status': st(h)} for t, h in mem[:50]]
                if tail[:2] == ['txs', 'chain']:
                    last = tail[2] if len(tail) > 2 else ''
                    ids = [t for t, _ in conf]
                    i = ids.index(last) + 1 if last in ids else 0 if not last else len(ids)
                    return [{'txid': t, 'status': st(h)} for t, h in conf[i:i + 25]]
                raise NotFound

            kind = '/'.join(['address'] + tail[:2])
            if tail and tail not in (['utxo'], ['txs', 'mempool']) and tail[:2] != ['txs', 'chain']:
                self.unknown.append(q.url)
            return P, net, kind, fn
        if parts[0] == 'tx' and len(parts) == 3 and parts[2] == 'hex':
            def fn():
                raw = self.tx[net].get(parts[1])
                return raw if raw else (404, 'Transaction not found')

            return P, net, 'tx', fn
        if rest == 'tx' and q.method == 'POST':
            def fn():
                body = q.body.decode() if isinstance(q.body, bytes) else q.body or ''
                tx = _form(q).get('data') or body
                return txid_of(tx) if self.push(P, net, tx) else (400, 'sendrawtransaction RPC error')

            return P, net, 'push', fn
        return self._unknown(P, net, q)

    # ---- bitcore
    def r_bitcore(self, net, rest, q):
        P = 'bitcore'
        parts = rest.strip('/').split('/')
        if parts[0] == 'address':
            a, script = self.get(net, parts[1])
            if len(parts) == 3 and parts[2] == 'balance':
                def fn():
                    if a is None:
                        return 500, 'invalid'
                    conf = sum(c.amount for c in a.coins if c.height is not None)
                    return {'confirmed': conf, 'unconfirmed': a.balance - conf, 'balance': a.balance}

                return P, net, 'balance', fn
            if len(parts) == 2 and q.query.get('unspent') == 'true':
                def fn():
                    if a is None:
                        return 500, 'invalid'
                    lim = min(int(q.query.get('limit', '10')), 1000)
                    since = q.query.get('since')
                    rows = [{'_id': 'id%06d' % i, 'chain': 'BTC', 'mintIndex': c.n, 'mintTxid': c.txid, 'value': c.amount, 'script': script.hex(),
                             'address': parts[1], 'spentTxid': '', 'mintHeight': c.height if c.height is not None else -1, 'coinbase': False,
                             'confirmations': self.tip[net] - c.height + 1 if c.height is not None else 0} for i, c in enumerate(a.coins)]
                    k = 0
                    if since is not None:
                        k = [r['_id'] for r in rows].index(since) + 1
                    return rows[k:k + lim]

                return P, net, 'utxo', fn
        if rest == 'tx/send' and q.method == 'POST':
            def fn():
                try:
                    tx = json.loads(q.body).get('rawTx')
                except Exception:
                    tx = _form(q).get('rawTx')
                return {'txid': txid_of(tx)} if self.push(P, net, tx) else (500, 'rejected')

            return P, net, 'push', fn
        return self._unknown(P, net, q)

    # ---- smartbit
    def r_smartbit(self, net, rest, q):
        P = 'smartbit'
        parts = rest.split('/')
        base = 'https://%s/v1/blockchain/' % ('api.smartbit.com.au' if net == 'main' else 'testnet-api.smartbit.com.au')
        if parts[0] == 'address':
            a, script = self.get(net, parts[1])
            lim = min(int(q.query.get('limit', '10')), self.PAGE[P])
            off = int(q.query.get('next', '0'))

            def fn():
                if a is None:
                    return 400, '{"success":false}'
                if len(parts) == 2:
                    rows = [{'txid': t} for t, _ in a.timeline()]
                    page = rows[off:off + lim]
                    nxt = off + lim if off + lim < len(rows) else None
                    body = {'address': parts[1], 'total': {'balance_int': a.balance, 'balance': _btc(a.balance), 'received_int': a.received}}
                    if rows:
                        body['transaction_paging'] = {'next_link': base + 'address/%s?limit=%d&next=%d' % (parts[1], lim, nxt) if nxt else None}
                        body['transactions'] = page
                    return {'success': True, 'address': body}
                rows = [{'value': _btc(c.amount), 'value_int': c.amount, 'confirmations': self.tip[net] - c.height + 1 if c.height is not None else 0,
                         'script_pub_key': {'hex': script.hex()}, 'txid': c.txid, 'n': c.n} for c in a.coins]
                page = rows[off:off + lim]
                nxt = off + lim if off + lim < len(rows) else None
                link = base + 'address/%s/unspent?limit=%d&next=%d' % (parts[1], lim, nxt) if nxt else None
                body = {'success': True}
                if rows:
                    body['unspent'] = page
                    body['paging'] = {'next_link': link}
                return body

            if len(parts) == 2 or (len(parts) == 3 and parts[2] == 'unspent'):
                return P, net, 'address' if len(parts) == 2 else 'utxo', fn
        if parts[0] == 'tx' and len(parts) == 3 and parts[2] == 'hex':
            def fn():
                raw = self.tx[net].get(parts[1])
                return {'success': True, 'hex': [{'txid': parts[1], 'hex': raw}]} if raw else (400, '{"success":false}')

            return P, net, 'tx', fn
        if rest == 'pushtx' and q.method == 'POST':
            def fn():
                tx = json.loads(q.body).get('hex')
                return {'success': True, 'txid': txid_of(tx)} if self.push(P, net, tx) else (400, '{"success":false}')

            return P, net, 'push', fn
        return self._unknown(P, net, q)

    # ---- blockchain.info
    def r_blockchain(self, net, rest, q):
        P = 'blockchain'
        parts = rest.split('/')
        if parts[0] == 'address':
            a, script = self.get(net, parts[1])

            def fn():
                if a is None:
                    return 404, '{"error":"not-found-or-invalid-arg"}'
                off, lim = int(q.query.get('offset', '0')), min(int(q.query.get('limit', '50')), self.PAGE['blockchain_tx'])
                return {'address': parts[1], 'n_tx': len(a.history), 'final_balance': a.balance, 'total_received': a.received, 'total_sent': a.spent,
                        'txs': [{'hash': t} for t, _ in a.timeline()][off:off + lim]}

            return P, net, 'address' if q.query.get('limit') != '0' else 'balance', fn
        if parts[0] == 'unspent':
            a, script = self.get(net, q.query.get('active', ''))

            def fn():
                if a is None:
                    return 400, 'Invalid Bitcoin Address'
                if not a.coins:
                    return 500, 'No free outputs to spend'
                off, lim = int(q.query.get('offset', '0')), min(int(q.query.get('limit', '250')), 1000)
                rows = [{'tx_hash': bytes.fromhex(c.txid)[::-1].hex(), 'tx_hash_big_endian': c.txid, 'tx_output_n': c.n, 'script': script.hex(),
                         'value': c.amount, 'confirmations': self.tip[net] - c.height + 1 if c.height is not None else 0} for c in a.coins]
                return {'unspent_outputs': rows[off:off + lim]}

            return P, net, 'utxo', fn
        if parts[0] == 'rawtx':
            def fn():
                raw = self.tx[net].get(parts[1])
                return raw if raw else (500, 'Transaction not found')

            return P, net, 'tx', fn
        if rest == 'pushtx' and q.method == 'POST':
            def fn():
                return 'Transaction Submitted' if self.push(P, net, _form(q).get('tx')) else (400, 'rejected')

            return P, net, 'push', fn
        return self._unknown(P, net, q)

    # ---- a Bitcoin node
    def rpc(self, net, q):
        c = json.loads(q.body)
        m, p = c['method'], c['params']
        err = None
        res = None
        if m == 'getreceivedbyaddress':
            a, _ = self.get(net, p[0])
            res = _num(a.received)
        elif m == 'listreceivedbyaddress':
            a, s = self.get(net, p[3])
            if a.received or a.history:
                res = [{'address': p[3], 'amount': _num(a.received), 'txids': receives(a)}]
            else:
                res = []
        elif m == 'listunspent':
            res = []
            for x in p[2]:
                a, s = self.get(net, x)
                res += [{'txid': e.txid, 'vout': e.n, 'address': x, 'scriptPubKey': s.hex(), 'amount': _num(e.amount),
                         'confirmations': self.tip[net] - e.height + 1 if e.height is not None else 0} for e in a.coins
                        if p[0] <= (self.tip[net] - e.height + 1 if e.height is not None else 0) <= p[1]]
        elif m == 'getrawtransaction':
            res = self.tx[net].get(p[0])
            if res is None:
                err = {'code': -5, 'message': 'No such mempool or blockchain transaction'}
        elif m == 'sendrawtransaction':
            if self.push('rpc:' + q.host.rpartition('@')[2], net, p[0]):
                res = txid_of(p[0])
            else:
                err = {'code': -26, 'message': 'rejected'}
        else:
            err = {'code': -32601, 'message': 'Method not found'}
        return (500 if err else 200), '{"result":%s,"error":%s,"id":null}' % (_njson(res), json.dumps(err))


def t_is_spender(t, a):
    return t in {txid_for('spender', x) for x, _ in a.history}


def receives(a):
    if not a.spent:
        return [t for t, _ in a.history]
    out = {txid_for('spender', x) for x, _ in a.history}
    return [t for t, _ in a.history if t not in out]


class _Num:
    """A satoshi amount the way a node writes it: BTC with 8 decimals."""

    def __init__(self, sat):
        self.sat = sat


def _num(sat):
    return _Num(sat)


def _njson(x):
    if isinstance(x, _Num):
        return '%d.%08d' % divmod(x.sat, BTC)
    if isinstance(x, list):
        return '[' + ','.join(_njson(y) for y in x) + ']'
    if isinstance(x, dict):
        return '{' + ','.join(json.dumps(k) + ':' + _njson(v) for k, v in x.items()) + '}'
    return json.dumps(x)


def _btc(sat):
    return '%d.%08d' % divmod(sat, BTC)


def _dec(x):
    return str(x) if isinstance(x, Decimal) else repr(x)


def _form(q):
    from urllib.parse import parse_qsl

    b = q.body.decode() if isinstance(q.body, bytes) else q.body or ''
    return dict(parse_qsl(b, keep_blank_values=True))


def txid_of(tx):
    try:
        return ref.parse(tx).txid
    except Exception:
        return 'f' * 64


class Money:
    """The rate and fee services.  ``price[provider][currency]``: currency units
    per bitcoin; ``fault(provider, index)`` as in World."""

    def __init__(self, price=None, fast=50, hour=20):
        self.price = price or {}
        self.fast, self.hour = fast, hour
        self.log = []  # (provider, currency)
        self.fault = None

    def route(self, q):
        h, p = q.host, q.path
        if h == 'bitpay.com' and p.startswith('/rates/BTC/'):
            return 'bitpay', p.rsplit('/', 1)[1].lower()
        if h == 'blockchain.info' and p == '/tobtc':
            return 'blockchain', q.query.get('currency', '').lower()
        if h == 'mempool.space' and p == '/api/v1/fees/recommended':
            return 'fees', None
        return None

    def handler(self, q):
        r = self.route(q)
        if r is None:
            return 404, 'no such service'
        prov, cur = r
        i = len(self.log)
        self.log.append(r)
        if self.fault is not None:
            f = self.fault(prov, cur, i)
            if f is not None:
                if isinstance(f, BaseException):
                    raise f
                return f
        if prov == 'fees':
            return 200, json.dumps({'fastestFee': self.fast, 'halfHourFee': (self.fast + self.hour) // 2, 'hourFee': self.hour, 'minimumFee': 1})
        table = self.price.get(prov, {})
        price = table.get(cur)
        if price is None:
            return 404, '{"error":"no such currency"}'
        if prov == 'bitpay':
            return 200, '{"data":{"code":"%s","name":"x","rate":%s}}' % (cur.upper(), price)
        ctx = Context(prec=28, rounding=ROUND_HALF_EVEN)  # not whatever the library made of the current one
        btc = ctx.divide(Decimal(1), Decimal(str(price)))
        return 200, '{:f}'.format(ctx.quantize(btc, Decimal('0.' + '0' * 8)))


def combined(*worlds):
    """One handler for several worlds: Money first (exact paths)."""

    def handler(q):
        for w in worlds:
            if isinstance(w, Money) and w.route(q) is not None:
                return w.handler(q)
        for w in worlds:
            if isinstance(w, World):
                return w.handler(q)
        return 404, ''

    return handler
