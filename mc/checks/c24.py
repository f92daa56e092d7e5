"""C24: every history of chain changes, refreshes and outages up to the depth
bound, on every kind of wallet, against the chain itself."""
import itertools

from .. import env, fakenet, lib, refbtc as ref
from ..explorer import Violation, isolated
from bit.exceptions import InsufficientFunds
from bit.network import NetworkAPI

LEVEL = 'fault_enumeration'
BOUNDS = ('10 wallet kinds (keys with and without segwit, multisig 1-of-1, 2-of-2, 2-of-3 and uncompressed, both networks), 24 operations (receive and spend at either address, a transaction at both, one dropped from the chain, a new block, '
          'four refreshing calls x {works, first address fails, second address fails, first service down}, another wallet): all sequences ending in a refresh to depth 3 (thorough 4), plus every outage '
          'starting at request 0..11 of every refresh, with and without a connected node')
RULE = 'a refresh is interrupted at every address query, and at every request, of every refreshing call, in every history up to the bound'
ASSUMPTIONS = ['an outage is a connection failure of every service asked about the address']
TECHNIQUE = 'exhaustive enumeration of chain, refresh and outage histories on the real wallets against the simulated chain'

CHAIN = ['recv L', 'recv S', 'spend L', 'spend S', 'both', 'drop', 'block']
CALLS = ['coins', 'balance', 'history', 'create']
FAIL = ['', '!1', '!2', '!p']
OPS = CHAIN + [c + f for c in CALLS for f in FAIL] + ['other coins']
LAST = [o for o in OPS if o not in CHAIN]


def wallets():
    out = []
    for net in ('main', 'test'):
        out += [('key', net, True), ('key', net, False), ('ms22', net, None), ('ms23', net, None), ('msu', net, None)]
    return out


def make(kind, net, comp, secrets):
    if kind == 'key':
        return lib.key_wallet(net, comp, secret=secrets[0])
    if kind == 'ms22':
        return lib.multi_wallets(net, 2, secrets[:2])[0]
    if kind == 'ms23':
        return lib.multi_wallets(net, 2, secrets[:3])[1]
    if kind == 'ms11':
        return lib.multi_wallets(net, 1, secrets[:1])[0]
    return lib.multi_wallets(net, 1, secrets[:2], compressed=[False, True])[0]


class Sim:
    def __init__(self, wk, node=False):
        self.W = fakenet.World()
        self.w = make(*wk, lib.SECRETS[:3])
        self.o = make(*wk, lib.SECRETS[7:10])
        self.net = wk[1]
        self.n = 0
        self.bad = ()
        self.until = None
        self.nreq = 0
        env.NET.reset(self.handler)
        self.node = node
        if node:
            self.W.nodes[('http', 'node.example:1')] = self.net
            NetworkAPI.connect_to_node('u', 'p', host='node.example', port=1, testnet=self.net == 'test')
        self.add(self.w, 'L')
        self.add(self.o, 'L')
        if self.o.seg_script:
            self.add(self.o, 'S')
        # what each wallet must report now
        self.state = {0: ([], 0, []), 1: ([], 0, [])}
        self.sent = 0

    def handler(self, q):
        i = self.nreq
        self.nreq += 1
        text = q.url + ' ' + (q.body.decode() if isinstance(q.body, bytes) else q.body or '')
        if self.until is not None and i >= self.until:
            self.sent += 1
            raise env.requests.exceptions.ConnectionError('outage')
        if any(b in text for b in self.bad):
            self.sent += 1
            raise env.requests.exceptions.ConnectionError('outage')
        return self.W.handler(q)

    def script(self, w, k):
        return w.script if k == 'L' else w.seg_script

    def add(self, w, k, txid=None):
        s = self.script(w, k)
        if s is None:
            return
        self.n += 1
        h = fakenet.TIP - self.n if self.n % 3 else None
        self.W.add(self.net, s, txid or fakenet.txid_for('c24', self.n), self.n % 4, 10000 + 7 * self.n, h)

    def spend(self, w, k):
        s = self.script(w, k)
        a = self.W.net[self.net].get(s) if s is not None else None
        if a and a.coins:
            self.n += 1
            c = a.coins.pop(0)
            a.spent += c.amount
            a.history.insert(0, (fakenet.txid_for('c24spend', self.n), fakenet.TIP))

    def drop(self, w):
        """A transaction the network forgot (evicted or double spent)."""
        for k in ('S', 'L'):
            s = self.script(w, k)
            a = self.W.net[self.net].get(s) if s is not None else None
            if a and a.coins:
                c = a.coins.pop()
                a.received -= c.amount
                a.history = [(t, h) for t, h in a.history if t != c.txid]
                return

    def block(self):
        """A block: one more confirmation for all, a first one for what waited."""
        self.W.tip[self.net] += 1
        t = self.W.tip[self.net]
        for a in self.W.net[self.net].values():
            for c in a.coins:
                if c.height is None:
                    c.height = t
            a.history = [(x, t if h is None else h) for x, h in a.history]

    def truth(self, w):
        coins, hist = [], []
        for k in ('L', 'S'):
            s = self.script(w, k)
            if s is None:
                continue
            a = self.W.net[self.net].get(s) or fakenet.Addr()
            for c in a.coins:
                conf = self.W.tip[self.net] - c.height + 1 if c.height is not None else 0
                vs = w.vsizes[k]
                coins.append((c.txid, c.n, c.amount, conf, s.hex(), w.types[k], vs if vs is not None else {'p2pkh': 148, 'p2pkh-uncompressed': 180, 'np2wkh': 91}[w.types[k]], k == 'S'))
            hist += [t for t, _ in a.history]
        return sorted(coins), sum(c[2] for c in coins), sorted(hist)

    def view(self, w):
        o = w.obj
        return (sorted((u.txid, u.txindex, u.amount, u.confirmations, u.script, u.type, u.vsize, u.segwit) for u in o.unspents), o.balance, sorted(o.transactions))

    def call(self, w, c):
        o = w.obj
        if c == 'coins':
            r = o.get_unspents()
            got = sorted((u.txid, u.txindex, u.amount, u.confirmations, u.script, u.type, u.vsize, u.segwit) for u in r)
            return 'coins', got
        if c == 'balance':
            return 'balance', o.get_balance('satoshi')
        if c == 'history':
            return 'history', sorted(o.get_transactions())
        d = lib.dests(self.net)[0]
        try:
            o.create_transaction([(d, 1000, 'satoshi')], fee=1, absolute_fee=True)
        except InsufficientFunds:
            pass
        except ValueError:
            if self.truth(w)[0]:
                raise
        return 'created', None

    def op(self, o):
        w = self.w
        if o.startswith('recv'):
            return self.add(w, o[5:])
        if o.startswith('spend'):
            return self.spend(w, o[6:])
        if o == 'drop':
            return self.drop(w)
        if o == 'block':
            return self.block()
        if o == 'both':
            if self.node:
                return
            t = fakenet.txid_for('c24both', self.n)
            self.add(w, 'L', t)
            self.add(w, 'S', t)
            return
        which = 0
        if o.startswith('other '):
            which, w, o = 1, self.o, o[6:]
        call, _, f = o.partition('!')
        self.bad = {'1': (w.addr,), '2': (w.seg_addr,) if w.seg_addr else (), 'p': ('api.blockchair.com', 'blockstream.info'), '': ()}[f]
        if self.node and f == 'p':
            self.bad = ()
        self.nreq = self.sent = 0
        env.NET.log = []
        coins, bal, hist = self.truth(w)
        old = self.state[which]
        try:
            got = self.call(w, call)
            ok = True
        except Violation:
            raise
        except Exception as e:
            ok = False
            if not self.sent:
                raise Violation('%s raises %r although nothing failed' % (call, e))
            if not self.node and not isinstance(e, ConnectionError):
                raise Violation('%s during an outage raises %r, not a connection error' % (call, e))
        self.bad, self.until = (), None
        if f in ('1', '2') and self.sent and ok:
            raise Violation('%s succeeds although an address could not be queried' % call)
        if f == 'p' and not ok:
            raise Violation('%s fails although the remaining services answer' % call)
        if ok:
            if call == 'history':
                new = (old[0], old[1], hist)
            else:
                new = (coins, bal, old[2])
            want = {'coins': coins, 'balance': str(bal), 'history': hist, 'created': None}[got[0]]
            if got[1] != want and not (got[0] == 'history' and set(got[1]) == set(want)):
                raise Violation('%s returned %r, the chain says %r' % (call, got[1], want))
            self.state[which] = new
            if call == 'history' and not self.node:
                self.ordered(w)
        self.judge('%s%s' % (o, '' if ok else ' (failed)'))
        return ok

    def ordered(self, w):
        """Each address's transactions are listed from newest to oldest."""
        al = [self.W.net[self.net].get(self.script(w, k)) for k in ('L', 'S') if self.script(w, k) is not None]
        al = [a for a in al if a]
        for a in al:
            shared = {t for b in al if b is not a for t, _ in b.history}
            if not a.in_order([t for t in w.obj.transactions if t not in shared]):
                raise Violation('the history is not listed from newest to oldest: %r' % w.obj.transactions)

    def judge(self, what):
        for i, w in ((0, self.w), (1, self.o)):
            v, s = self.view(w), self.state[i]
            name = ('the wallet', 'another wallet')[i]
            if v[0] != s[0]:
                raise Violation('%s: coins of %s are %r, should be %r' % (what, name, v[0], s[0]))
            if v[1] != s[1]:
                raise Violation('%s: balance of %s is %r, should be %r' % (what, name, v[1], s[1]))
            if v[2] != s[2] and set(v[2]) != set(s[2]):
                raise Violation('%s: history of %s is %r, should be %r' % (what, name, v[2], s[2]))


def units(tier):
    us = []
    for k in range(len(wallets())):
        us += [{'t': 'seq', 'w': k, 'first': a} for a in OPS]
        us += [{'t': 'cut', 'w': k, 'node': n} for n in (False, True)]
    us += [{'t': 'one', 'net': n} for n in ('main', 'test')]
    return us


def run_seq(wk, ops, node=False):
    env.STATE.now += 10**4
    S = Sim(wk, node)
    for i, o in enumerate(ops):
        try:
            S.op(o)
        except Violation as v:
            raise Violation('%r after %r: %s' % (wk, list(ops[:i + 1]), v))
    return S


def cut(ctx, wk, node):
    for pre in ((), ('coins', 'history'), ('coins', 'history', 'recv L', 'recv S', 'spend L'), ('balance', 'history!1', 'recv S', 'both', 'create')):
        for call in CALLS:
            for at in range(0, 12):
                env.STATE.now += 10**4
                S = Sim(wk, node)
                for o in pre:
                    S.op(o)
                S.until = at
                ok = S.op(call)
                ctx.case((wk, node, pre, call, at), calls=len(pre) + 4)
                for post in (call, 'coins', 'history'):
                    if S.op(post) is not True:
                        raise Violation('%r: %s after an outage fails' % (wk, post))
                ctx.outcome('%s: %s' % (call, 'completed' if ok else 'failed, state kept, recovered'))


def run_unit(ctx, u):
    env.reset()
    if u['t'] == 'one':
        # other contract shapes, once through
        for m, n in ((1, 1), (1, 2), (1, 3), (3, 3), (2, 5), (7, 15)):
            for ops in (('coins', 'recv S', 'coins', 'history', 'create'), ('recv S', 'balance!2', 'balance', 'history!2', 'history')):
                if n == 15 and ops[-1] == 'create':
                    ops = ops[:-1]
                ctx.case((u['net'], m, n, ops), calls=len(ops))
                S = Sim(('key', u['net'], True))
                S.w = lib.multi_wallets(u['net'], m, lib.SECRETS[:n])[-1]
                if n == 15 and len(S.w.seg_script or b'') == 0:
                    continue
                S.add(S.w, 'L')
                for o in ops:
                    S.op(o)
        return
    wk = wallets()[u['w']]
    if u['t'] == 'cut':
        isolated_ctx(ctx, cut, wk, u['node'])
        return
    depth = 3 if ctx.tier == 'quick' else 4
    for n in range(0, depth):
        for mid in itertools.product(OPS, repeat=max(0, n - 1)):
            for last in (LAST if n else [None]):
                ops = (u['first'],) + mid + ((last,) if last else ())
                if ops[-1] not in LAST:
                    continue
                if not comp_ok(wk, ops):
                    continue
                ctx.case((wk, ops), calls=len(ops))
                run_seq(wk, ops)
    ctx.outcome('consistent')


def comp_ok(wk, ops):
    """Skip operations without effect on wallets that have one address."""
    return not (wk[2] is False or wk[0] == 'msu') or not any(o in ('recv S', 'spend S', 'both') or o.endswith('!2') for o in ops)


def isolated_ctx(ctx, fn, *a):
    fn(ctx, *a)  # a unit is a process of its own, so a connected node dies with it
