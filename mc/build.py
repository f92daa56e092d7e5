"""Drivers shared by the transaction checks."""
import json

from . import env, lib, refbtc as ref
from .explorer import Violation


def quorum(ws, m=None):
    """Signing order: the creator first, then the other co-signers."""
    m = m or ws[0].obj.m
    return ws[:m]


def wallet_set(spec):
    """spec -> list of co-signing Wallets (a single one for plain keys)."""
    t = spec[0]
    if t == 'key':
        _, net, comp, si = spec
        return [lib.key_wallet(net, comp, lib.SECRETS[si])]
    _, net, m, n, unc, as_set = spec
    # unc: index of uncompressed key(s) or -1
    comp = [i != unc for i in range(n)]
    return lib.multi_wallets(net, m, lib.SECRETS[:n], comp, as_set)


KEYS = [('key', 'main', True, 0), ('key', 'main', False, 0), ('key', 'test', True, 1), ('key', 'test', False, 1)]


def unsigned_hex(coins, outs, segwit_marker=False):
    """A raw unsigned transaction as another tool would serialise it."""
    t = ref.mktx([(u.txid, u.txindex, b'', u.sequence, []) for u in coins], [(a, lib.spk(d)) for d, a in outs], segwit=segwit_marker)
    return t.full().hex()


def finish(ws, tx, coins, order=None):
    """Pass a created multisig transaction through the rest of the quorum."""
    rest = order if order is not None else ws[1:]
    for w in rest:
        tx = w.obj.sign_transaction(tx, unspents=list(coins))
    return tx


def sign_all(ws, coins, outputs, entry='create', **kw):
    """Build and fully sign through the given entry point; returns hex."""
    m = getattr(ws[0].obj, 'm', 1) if len(ws) > 1 or hasattr(ws[0].obj, 'm') else 1
    signers = ws[:m]
    if entry == 'create':
        tx = signers[0].obj.create_transaction(outputs, unspents=list(coins), **kw)
        return finish(signers, tx, coins)
    if entry == 'prepare':
        data = type(signers[0].obj).prepare_transaction(signers[0].addr, outputs, unspents=list(coins), **kw)
        tx = signers[0].obj.sign_transaction(data)
        return finish(signers, tx, coins)
    if entry == 'raw':
        fee = kw.get('fee', 1000)
        outs = [(d, int(a)) for d, a, c in outputs]
        rest = sum(u.amount for u in coins) - sum(a for _, a in outs) - fee
        if rest > 0:
            outs.append((kw.get('leftover') or signers[0].addr, rest))
        raw = unsigned_hex(coins, outs)
        tx = raw
        for w in signers:
            tx = w.obj.sign_transaction(tx, unspents=list(coins))
        return tx
    raise AssertionError(entry)


def valid(tx, coins, what=''):
    try:
        return ref.check_tx(tx, lib.chain(coins))
    except ref.Invalid as e:
        raise Violation('%s: the network would reject the transaction: %s' % (what, e), tx=tx)
