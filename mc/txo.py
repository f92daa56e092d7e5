"""Reading a returned transaction against what was asked for."""
from . import lib, refbtc as ref
from .explorer import Violation


class View:
    __slots__ = ('t', 'spent', 'total', 'pays', 'change', 'data', 'fee', 'rest')


def view(tx, coins, npay):
    """Split outputs positionally: the first npay are payments, data outputs
    at the end, at most one output in between is change."""
    try:
        t = tx if isinstance(tx, ref.Tx) else ref.parse(tx)
    except ref.Invalid as e:
        raise Violation('malformed transaction: %s' % e, tx=tx)
    v = View()
    v.t = t
    by = {(c.txid, c.txindex): c for c in coins}
    v.spent = []
    for i in t.ins:
        op = (i.txid[::-1].hex(), i.index)
        if op not in by:
            raise Violation('transaction spends %s:%d, which was not among the coins given' % op, tx=tx)
        v.spent.append(by[op])
    if len({(c.txid, c.txindex) for c in v.spent}) != len(v.spent):
        raise Violation('a coin is spent twice', tx=tx)
    v.total = sum(c.amount for c in v.spent)
    outs = [(o.script, o.amount) for o in t.outs]
    v.pays = outs[:npay]
    k = len(outs)
    while k > npay and outs[k - 1][0][:1] == b'\x6a' and outs[k - 1][1] == 0:
        k -= 1
    v.data = outs[k:]
    v.rest = outs[npay:k]
    v.change = v.rest[0] if v.rest else None
    v.fee = v.total - sum(a for _, a in outs)
    return v


def slack(spent, ws):
    """Upper bound of how many vbytes the library's size estimate may exceed
    the real size: signatures shorter than the maximum, the spare byte per
    multisig signature, rounding."""
    s = 1.0
    for c in spent:
        if c.type in ('p2pkh', 'p2pkh-uncompressed'):
            s += 4 + 0.25
        elif c.type == 'np2wkh':
            s += 1
        elif c.type == 'p2sh':
            s += 5 * ws[0].obj.m + 4
        else:
            s += 1.25 * ws[0].obj.m + 2
    return s


def fee_bounds(v, rate, ws, combine, change_script):
    """[lo, hi] for the fee at ``rate`` satoshi per vbyte."""
    vs = v.t.vsize
    lo = rate * vs
    hi = vs + slack(v.spent, ws)
    if v.change is None:
        # the cost of the change output is forgone, or, for an exact match,
        # up to one ordinary input and output
        hi += max(182 if not combine else 0, len(change_script) + 9) + 3
        if not combine:
            # overhead of coins that were offered but not needed
            hi += 3
    return lo, rate * hi
