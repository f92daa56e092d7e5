"""C26: the vanity generator with its worker processes, monitor and queue
under every schedule up to the preemption bound."""
import hashlib
import io
import itertools
import os
import subprocess
import sys

from .. import env, lib, mpsim, refbtc as ref
from ..explorer import Violation, explore

LEVEL = 'model_checking'
BOUNDS = ('1-3 workers (by count, all, out of range), matching key at position 1..3 or never for each worker (every combination with at least one match), prefixes of one and two characters with and '
          'without the leading 1: every schedule of workers, monitor and queue feeder with at most 2 (1 worker: 4; thorough: 3 / 6) deviations from the default order; every character refused or accepted; '
          'empty prefix; command line; 4 runs with real processes')
ASSUMPTIONS = ['processes share nothing but the multiprocessing objects; scheduling is fair']
TECHNIQUE = 'stateless exploration of all process interleavings of the real code on multiprocessing stand-ins, preemption bounded'

ALPHA = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
_pool = {}


def addr_of(secret):
    k = secret
    if k not in _pool:
        _pool[k] = ref.p2pkh_addr(pub(secret), 'main')
    return _pool[k]


def pub(secret):
    import coincurve

    return coincurve.PrivateKey(secret.to_bytes(32, 'big')).public_key.format()


def stream(tag):
    n = 0
    while True:
        n += 1
        yield int.from_bytes(hashlib.sha256(('%s/%d' % (tag, n)).encode()).digest(), 'big') % (ref.N - 1) + 1


def keys(prefix, tag, want, count):
    """``count`` secrets whose address does (not) start with the prefix."""
    out = []
    src = itertools.count(1) if tag == 'small' else stream(tag)
    for s in src:
        if addr_of(s).startswith(prefix) == want:
            out.append(s)
            if len(out) == count:
                return out


def full(prefix):
    return prefix if prefix.startswith('1') else '1' + prefix


_mod = []


def keygen():
    if not _mod:
        _mod.append(mpsim.install())
    return _mod[0]


class Out(io.StringIO):
    pass


def one(prefix, cores, cpus, positions, seqs, cli=False):
    K = keygen()
    sim = mpsim.Sim()
    sim.cpus = cpus
    made = {}

    def key(p):
        w = int(p.name[6:]) if p.name.startswith('worker') else 0
        bad, good = seqs[w % len(seqs)]
        pos = positions[w % len(positions)]
        n = p.keys
        s = good[(n - pos) % len(good)] if pos and n == pos else bad[n % len(bad)]
        made.setdefault(p.name, []).append(s)
        return s.to_bytes(32, 'big')

    sim.keygen = key
    out = Out()
    box = {}

    def main():
        if cli:
            from click.testing import CliRunner
            import bit.cli
            import importlib

            importlib.reload(bit.cli)
            args = ['gen', prefix] + (['--cores', str(cores)] if cores is not None else [])
            r = CliRunner().invoke(bit.cli.bit, args)
            out.write(r.output)
            if r.exception is not None and not isinstance(r.exception, SystemExit):
                raise r.exception
            box['ret'] = None
        else:
            box['ret'] = K.generate_matching_address(prefix) if cores is None else K.generate_matching_address(prefix, cores)

    old = sys.stdout
    sys.stdout = out
    try:
        m = sim.run(main)
    finally:
        sys.stdout = old
    if m.error is not None:
        raise Violation('generate_matching_address raises %s: %s' % (type(m.error).__name__, m.error), schedule=sim.log)
    for p in sim.procs:
        if p.error is not None:
            raise Violation('%s raises %s: %s' % (p.name, type(p.error).__name__, p.error), schedule=sim.log)
        if p.started and not p.done:
            raise Violation('%s does not stop' % p.name, schedule=sim.log)
    return sim, out.getvalue(), box.get('ret'), made


def pairs(text, ret):
    """(wif, address) pairs printed or returned."""
    got = []
    w = None
    for line in text.replace('\r', '\n').split('\n'):
        for word in line.replace("'", ' ').replace(',', ' ').replace('(', ' ').replace(')', ' ').split():
            try:
                p = ref.b58cdec(word)
            except ref.Invalid:
                continue
            if p[0] == 0x80 and len(p) in (33, 34):
                w = word
            elif p[0] == 0 and len(p) == 21:
                got.append((w, word))
                w = None
    if isinstance(ret, (tuple, list)) and len(ret) == 2:
        got.append((ret[0], ret[1]))
    return got


def judge(text, ret, prefix, made):
    got = pairs(text, ret)
    if not got:
        raise Violation('no key is reported: %r' % text)
    for w, a in got:
        if w is None:
            raise Violation('an address without its key is reported: %r' % text)
        net, secret, comp = ref.dec_wif(w) if hasattr(ref, 'dec_wif') else dec_wif(w)
        pk = pub(secret) if comp else lib.pubkey(secret, False)
        real = ref.p2pkh_addr(pk, 'main')
        if real != a:
            raise Violation('the reported key controls %s, the reported address is %s' % (real, a))
        if not a.startswith(full(prefix)):
            raise Violation('the reported address %s does not start with %s' % (a, full(prefix)))
        if made and not any(secret in l for l in made.values()):
            raise Violation('the reported key was never generated')


def dec_wif(w):
    p = ref.b58cdec(w)
    return {0x80: 'main', 0xEF: 'test'}[p[0]], int.from_bytes(p[1:33], 'big'), len(p) == 34


PREFIX = ['b', '1b', 'Zz']


def units(tier):
    us = []
    pos = [0, 1, 2, 3]
    for n in (1, 2, 3):
        for ps in itertools.product(pos, repeat=n):
            if any(ps):
                if n == 3 and tier == 'quick' and (max(ps) > 2 or sum(1 for p in ps if p == 0) > 1):
                    continue
                us.append({'t': 'sched', 'n': n, 'pos': list(ps), 'prefix': PREFIX[sum(ps) % 2]})
    us += [{'t': 'sched', 'n': 2, 'pos': [1, 2], 'prefix': 'Zz'}]
    us += [{'t': 'chars', 'k': k} for k in range(4)]
    us += [{'t': 'ones', 'k': k} for k in range(4)]
    us += [{'t': 'cores'}, {'t': 'empty'}, {'t': 'cli'}, {'t': 'many'}]
    us += [{'t': 'real', 'prefix': p, 'cores': c} for p, c in (('b', 1), ('1A', 2), ('c', 'all'), ('2', '3'))]
    return us


def material(prefix, n, small=False):
    seqs = []
    for w in range(n):
        bad = keys(full(prefix), 'w%d' % w, False, 6)
        good = keys(full(prefix), 'small' if (small or w == 1) and len(full(prefix)) <= 2 else 'w%d' % w, True, 2)
        seqs.append((bad, good))
    return seqs


def run_unit(ctx, u):
    env.reset()
    T = u['t']
    if T == 'sched':
        n = u['n']
        seqs = material(u['prefix'], n)
        dev = {1: 4, 2: 2, 3: 2}[n] if ctx.tier == 'quick' else {1: 6, 2: 3, 3: 3}[n]

        def run(ch):
            try:
                sim, text, ret, made = one(u['prefix'], n, 4, u['pos'], seqs)
                judge(text, ret, u['prefix'], made)
            except Violation as v:
                raise Violation('%d workers, matches at %r, choices (point: choice) %r: %s' % (n, u['pos'], {i: c for i, c in enumerate(ch.choices) if c}, v), **v.detail)
            ctx.case((n, tuple(u['pos']), tuple(ch.choices)), key=tuple(sim.log), calls=sim.steps)
            ctx.outcome('%d candidates' % sum(1 for l in made.values() for s in l if addr_of(s).startswith(full(u['prefix']))))

        explore(run, max_dev=dev, ctx=ctx)
    elif T == 'chars':
        K = keygen()
        chars = [chr(c) for c in range(0x180)] + ['\u0660', '\uff11', '\U0001d7d8', 'ı', 'ﬁ']
        for c in chars[u['k']::4]:
            for p in (c, '1' + c, 'b' + c, c + 'b', 'bb' + c + 'b', '1' + c + c):
                ok = all(x in ALPHA for x in p)
                if ok and len(p) > 1 + p.startswith('1'):
                    continue  # valid but long to find
                env.STATE.chooser = env.Chooser()
                ctx.case(('chars', p))
                if ok:
                    good = keys(full(p), 'x', True, 1)
                    sim, text, ret, made = one(p, 1, 4, [1], [(keys(full(p), 'x', False, 2) if full(p) != '1' else good, good)])
                    judge(text, ret, p, made)
                    ctx.outcome('accepted')
                else:
                    try:
                        sim, text, ret, made = one(p, 1, 4, [1], [([5], [6])])
                    except Violation as v:
                        if 'raises ValueError' not in str(v):
                            raise
                    else:
                        ctx.fail('the invalid prefix %r is accepted' % p)
                    ctx.outcome('refused')
    elif T == 'ones':
        # more than one leading 1: each 1 of an address is a zero byte of its own
        good = keys('11', 'ones', True, 4 if ctx.tier == 'quick' else 12)
        near = keys('11', 'near', False, 40)
        for g in good:
            a = addr_of(g)
            for p in [a[:i] for i in range(1, 8)]:
                bad = [s for s in near if not addr_of(s).startswith(full(p))][u['k']::4][:3] or [g]
                for pos in (1, 2, 3):
                    env.STATE.chooser = env.Chooser()
                    ctx.case(('ones', p, pos, u['k']))
                    sim, text, ret, made = one(p, 1, 4, [pos], [(bad, [g])])
                    judge(text, ret, p, made)
        ctx.outcome('several leading 1s')
    elif T == 'cores':
        seqs = material('b', 4)
        for cpus in (1, 2, 4):
            for cores in (None, 'all', 1, 2, 3, 4, 5, 0, -1, '1', '2', '9', 100):
                env.STATE.chooser = env.Chooser()
                sim, text, ret, made = one('b', cores, cpus, [1, 2, 0, 3], seqs)
                judge(text, ret, 'b', made)
                ctx.case(('cores', cpus, cores), calls=sim.steps)
                n = sum(1 for p in sim.procs if p.name != 'main')
                want = cpus if cores in (None, 'all') else int(cores) if 0 < int(cores) <= cpus else 1
                ctx.eq(n, want, 'workers for cores=%r on %d CPUs' % (cores, cpus))
                ctx.outcome('%d workers' % n)
    elif T == 'empty':
        K = keygen()
        for s in keys('1', 'e', True, 20) + keys('1', 'small', True, 20):
            env.STATE.chooser = env.Chooser()
            sim = mpsim.Sim()
            sim.keygen = lambda p: s.to_bytes(32, 'big')
            box = {}

            def main():
                box['r'] = (K.generate_matching_address(''), K.generate_key_address_pair())

            m = sim.run(main)
            if m.error:
                raise m.error
            for r in box['r']:
                ctx.case(('empty', s))
                judge('', r, '', None)
                ctx.eq(dec_wif(r[0])[1], s, 'generated key')
    elif T == 'many':
        # whatever key matches, the report is about that key
        for p in ('b', '1') if False else ('b',):
            bad = keys('1b', 'q', False, 3)
            for k, good in enumerate(keys('1b', 'many', True, 60) + keys('1b', 'small', True, 40)):
                env.STATE.chooser = env.Chooser()
                sim, text, ret, made = one('b', 1, 2, [1 + k % 3], [(bad, [good])])
                judge(text, ret, 'b', made)
                ctx.case(('many', good), calls=sim.steps)
    elif T == 'cli':
        try:
            import click.testing  # noqa
        except ImportError:
            ctx.outcome('click not installed')
            return
        seqs = material('b', 2)
        for p in ('b', '1b'):
            for cores in (None, 'all', 1, 2):
                def run(ch):
                    sim, text, ret, made = one(p, cores, 2, [1, 2], seqs, cli=True)
                    judge(text, ret, p, made)
                    ctx.case(('cli', p, cores, tuple(ch.choices)), calls=sim.steps)

                explore(run, max_dev=1, ctx=ctx)
        ctx.outcome('command line')
    elif T == 'real':
        # the same code on real processes
        code = 'import sys; sys.path.insert(0, %r); from bit.keygen import generate_matching_address as g; r = g(%r, %r); r and print(*r)' % (env.REPO, u['prefix'], u['cores'])
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        try:
            r = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, text=True, timeout=240, env=e)
        except subprocess.TimeoutExpired:
            ctx.fail('with real processes the generator does not stop')
        ctx.case(('real', u['prefix'], u['cores']))
        if r.returncode:
            ctx.fail('with real processes: %s' % r.stderr[-500:])
        judge(r.stdout, None, u['prefix'], None)
        ctx.outcome('real processes')
