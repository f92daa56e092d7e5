"""Development aid: find payments whose signatures have unusual lengths and
print the table mc/siglens.py (RFC 6979 makes it reproducible)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('VERIF_REPO', '/repo')
from mc import env, lib, refbtc as ref  # noqa
from mc.build import unsigned_hex  # noqa
from coincurve import PrivateKey  # noqa

TRIES = 400000


def cases():
    out = []
    for k in 'LS':
        out.append(('ms', k))
    for net, comp, si, k in (('main', True, 0, 'L'), ('main', True, 0, 'S'), ('main', False, 0, 'L'), ('test', True, 1, 'L'), ('test', True, 1, 'S')):
        out.append(('key', net, comp, si, k))
    return out


def run(c):
    k = c[-1]
    if c[0] == 'ms':
        net = 'test'
        ws = lib.multi_wallets(net, 2, lib.SECRETS[3:6])
        code = ref.multisig_script([lib.pubkey(s) for s in lib.SECRETS[3:6]], 2)
        secs = lib.SECRETS[3:6]
    else:
        net = c[1]
        ws = [lib.key_wallet(c[1], c[2], lib.SECRETS[c[3]])]
        code = ref.decode_address(ws[0].addr)[1]
        secs = [lib.SECRETS[c[3]]]
    coin = ws[0].coin(k, 10**8, 0, index=1)
    keys = [PrivateKey.from_int(s) for s in secs]
    t = ref.parse(unsigned_hex([coin], [(lib.dests(net)[1], 1000)]), strict=False)
    found = {}
    for a in range(1000, 1000 + TRIES):
        t.outs[0].amount = a
        d = ref.sighash_legacy(t, 0, code) if k == 'L' else ref.sighash_v0(t, 0, code, coin.amount)
        ls = tuple(len(x.sign(d, hasher=None)) for x in keys)
        for j, n in enumerate(ls):
            found.setdefault((j, n), a)
        if len(ls) > 1:
            for i, j in ((0, 1), (0, 2), (1, 2)):
                if ls[i] < 70 and ls[j] < 70:
                    found.setdefault((i, j, ls[i], ls[j]), a)
    return c, found


if __name__ == '__main__':
    # one process per case: grind.py N
    c, f = run(cases()[int(sys.argv[1])])
    print('    %r: %r,' % (c, sorted(set(f.values()))))
    print('    # ' + ', '.join('%s:%d' % (x, f[x]) for x in sorted(f, key=str)))
