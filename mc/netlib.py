"""Shared by the network checks: the public queries, the services in their
order of preference, and the answers a service's own data implies."""
import requests

from . import env, fakenet, refbtc as ref
from bit.network import NetworkAPI

RX = requests.exceptions

ORDER = {
    ('balance', 'main'): ['blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain'],
    ('history', 'main'): ['blockchair', 'blockstream', 'smartbit', 'blockchain'],
    ('tx', 'main'): ['blockchair', 'blockstream', 'smartbit', 'blockchain'],
    ('unspent', 'main'): ['blockstream', 'blockchair', 'smartbit', 'blockchain', 'bitcore'],
    ('push', 'main'): ['blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain'],
    ('balance', 'test'): ['blockchair', 'blockstream', 'bitcore', 'smartbit'],
    ('history', 'test'): ['blockchair', 'blockstream', 'smartbit'],
    ('tx', 'test'): ['blockchair', 'blockstream', 'smartbit'],
    ('unspent', 'test'): ['blockstream', 'blockchair', 'smartbit', 'bitcore'],
    ('push', 'test'): ['blockchair', 'blockstream', 'bitcore', 'smartbit'],
}
QUERIES = ('balance', 'history', 'tx', 'unspent')
NETS = ('main', 'test')


def call(query, net, arg):
    s = '' if net == 'main' else '_testnet'
    name = {'balance': 'get_balance', 'history': 'get_transactions', 'tx': 'get_transaction_by_id', 'unspent': 'get_unspent', 'push': 'broadcast_tx'}[query]
    return getattr(NetworkAPI, name + s)(arg)


def coin_key(u):
    return (u.txid, u.txindex, u.amount, u.confirmations, u.script)


def norm(query, res):
    """Order carries no meaning in an address's coins or history."""
    if query == 'unspent':
        return sorted(coin_key(u) for u in res)
    if query == 'history':
        return sorted(res)
    return res


def truth(world, query, net, arg, script):
    if query == 'tx':
        return world.tx[net].get(arg)
    a = world.net[net].get(script) or fakenet.Addr()
    if query == 'balance':
        return a.balance
    if query == 'history':
        return sorted(t for t, _ in a.history)
    return sorted((c.txid, c.n, c.amount, world.tip[net] - c.height + 1 if c.height is not None else 0, script.hex()) for c in a.coins)


class Worlds:
    """A world per service, so that every answer identifies its source."""

    def __init__(self, provs):
        self.w = {p: fakenet.World() for p in provs}
        self.probe = fakenet.World()
        self.log = []  # (provider, net, kind, faulted?, timeout)
        self.fault = None  # (provider, net, kind, position at the provider, req) -> None | exception | (status, body)
        self.pos = {}

    def handler(self, q):
        prov, net, kind, _ = self.probe.route(q)
        i = self.pos.get(prov, 0)
        self.pos[prov] = i + 1
        f = self.fault(prov, net, kind, i, q) if self.fault else None
        self.log.append((prov, net, kind, f is not None, q.timeout))
        if f is not None:
            if isinstance(f, BaseException):
                raise f
            return f
        if prov not in self.w:
            return 404, 'not found'
        return self.w[prov].handler(q)

    def clear(self):
        self.log = []
        self.pos = {}


def groups(log):
    """Providers in the order contacted, consecutive requests merged."""
    out = []
    for p in log:
        if not out or out[-1] != p[0]:
            out.append(p[0])
    return out


# What the services document as "not there" rather than as a failure: these
# are answers, so they are not in the fault alphabet at these places.
def is_answer(prov, net, kind, query, pos, status):
    if prov == 'blockchair' and status == 404 and query in ('history', 'unspent', 'tx') and pos == 0:
        return True
    if prov == 'blockstream' and status == 400 and (kind == 'address/txs/mempool' or (kind == 'address/txs/chain' and pos <= 1)):
        return True
    if prov == 'blockstream' and status == 400 and kind == 'address/utxo' and net == 'test':
        return True
    if prov == 'blockstream' and status == 404 and kind == 'tx':
        return True
    if prov == 'smartbit' and status == 400 and kind == 'tx':
        return True
    return False


# Plain text is all they promise here: any text is an answer.
TEXT = {('blockstream', 'tx'), ('blockchain', 'tx')}


def alphabet(full=True):
    f = [lambda: RX.ConnectionError('refused'), lambda: RX.ReadTimeout('read timed out'), lambda: (503, 'Service Unavailable')]
    if full:
        f += [lambda: RX.ConnectTimeout('connect timed out'), lambda: RX.SSLError('certificate'), lambda: RX.ProxyError('proxy'), lambda: (500, '{"error":"internal"}'), lambda: (500, ''),
              lambda: (429, 'Too Many Requests'), lambda: (403, '<html>blocked</html>'), lambda: (401, ''), lambda: (404, 'not found'), lambda: (400, '{"error":"bad request"}'), lambda: (502, ''),
              lambda: (504, '[]'), lambda: (430, '{"data":null}'), lambda: RX.ChunkedEncodingError('cut off'), lambda: RX.ContentDecodingError('garbled'), lambda: (200, '<html>maintenance</html>')]
    return f
