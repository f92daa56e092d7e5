"""C33: the process around the library, compared before and after every call of
every sequence."""
import decimal
import io
import itertools
import json
import locale
import os
import random
import socket
import subprocess
import sys
import warnings

from .. import env, fakenet, hoststate, lib, netlib
from ..explorer import Violation, explore, isolated
from ..netlib import NETS
from . import c28
import bit
from bit import keygen
from bit import Key, MultiSig, PrivateKey, PrivateKeyTestnet, wif_to_key
from bit.base32 import bech32_decode
from bit.base58 import b58decode_check, b58encode_check
from bit.format import address_to_public_key_hash, get_version
from bit.network import NetworkAPI, currency_to_satoshi, currency_to_satoshi_cached, get_fee, get_fee_cached, satoshi_to_currency, satoshi_to_currency_cached
from bit.network.meta import Unspent
from bit.transaction import address_to_scriptpubkey, calc_txid, deserialize, estimate_tx_fee, select_coins

LEVEL = 'model_checking'
RULE = 'an execution is one sequence of calls in one host setting under one failure pattern, the process compared after every call; distinct by (wallet, host setting, calls, failures met)'
BOUNDS = ('9 wallets and ~100 calls each (queries, nodes, rates, fees, building, signing, sending, importing, exporting, codecs, coin selection of 2000 coins, invalid arguments); 3 host settings; every call under every '
          'single fault of a 13-fault alphabet at every request, and every pair of a 4-fault alphabet; all sequences of 2 calls (thorough: of 3 of 30 calls) with services, a node, and everything down; '
          'import of every module in a fresh interpreter')
ASSUMPTIONS = ['the search of the vanity generator, which starts worker processes and reports on the console, is the subject of C26 (its refusals are included)', 'use of the random generator moves its state; seeding it or setting its state does not happen',
               "the standard library's and requests' own caches are not state the application relies on"]
TECHNIQUE = 'exhaustive exploration of call sequences and failures on the real code with a monitor of the whole process state after every transition'


def calls(S):
    """Everything the application may call: name -> function."""
    c = dict(S.calls())
    for n in ('console', 'log', 'dir', 'json', 'int', 'no such', 'call', 'compare', 'hash', 'bool', 'bytes', 'print'):
        c.pop(n, None)
    o, net, d = S.o, S.net, S.d
    other = 'test' if net == 'main' else 'main'
    C = PrivateKey if net == 'main' else PrivateKeyTestnet
    many = [Unspent(1000 + 3 * i, 1, S.w.script.hex(), '%064x' % (i + 1), i % 5) for i in range(2000)]
    addr = S.w.addr
    tx = [None]

    def signed():
        if tx[0] is None:
            tx[0] = S.unsigned()
        return tx[0]

    def node(n, **k):
        return lambda: NetworkAPI.connect_to_node('u%40', 'p', **dict(dict(host='node.example', port=8332, testnet=n == 'test'), **k))

    c.update({
        'node': node(net), 'node other net': node(other), 'node https': node(net, use_https=True), 'node bundle': node(net, use_https=True, path_to_cert='/nonexistent/ca.pem') if _has_cert() else node(net, use_https=True),
        'timeout': lambda: bit.set_service_timeout(7), 'timeout fraction': lambda: bit.set_service_timeout(0.5),
        'new': lambda: C(), 'to': lambda: currency_to_satoshi('1.23456789', 'btc'), 'to usd': lambda: currency_to_satoshi(3, 'usd'), 'to cached': lambda: currency_to_satoshi_cached(0.1, 'eur'),
        'from': lambda: satoshi_to_currency(10**15 + 7, 'usd'), 'from cached': lambda: satoshi_to_currency_cached(123, 'eur'), 'bad conversion': lambda: currency_to_satoshi('1,5', 'btc'), 'bad currency': lambda: satoshi_to_currency(1, 'q'),
        'fee': lambda: get_fee_cached(), 'fee slow': lambda: get_fee_cached(fast=False), 'fee now': lambda: get_fee(), 'fee slow now': lambda: get_fee(fast=False),
        'select few': lambda: select_coins(5000, 3, [34], min_change=1000, absolute_fee=False, consolidate=False, unspents=many[:12]),
        'select all': lambda: select_coins(10**6, 30, [34], min_change=1000, absolute_fee=False, consolidate=True, unspents=many),
        'select': lambda: select_coins(10**6, 3, [34], min_change=1000, absolute_fee=False, consolidate=False, unspents=many),
        'select poor': lambda: select_coins(10**12, 3, [34], min_change=1000, absolute_fee=False, consolidate=False, unspents=many),
        'create many': lambda: o.create_transaction([(d, 10**6, 'satoshi')], fee=1, unspents=many[:5], combine=False),
        'create all': lambda: o.create_transaction([], leftover=d, fee=1, unspents=S.coins),
        'create btc': lambda: o.create_transaction([(d, '0.00012345', 'btc')], fee=1, unspents=S.coins),
        'estimate': lambda: estimate_tx_fee(148, 1, 34, 1, 20), 'parse': lambda: deserialize(signed()), 'parse bad': lambda: deserialize('0100'), 'id': lambda: calc_txid(signed()),
        'script': lambda: address_to_scriptpubkey(d), 'script bad': lambda: address_to_scriptpubkey('1' * 30), 'version': lambda: (get_version(d), get_version(addr)), 'hash of address': lambda: address_to_public_key_hash(addr),
        'base58': lambda: b58decode_check(b58encode_check(b'\0\0abc')), 'base58 bad': lambda: b58decode_check('abc'), 'bech32': lambda: bech32_decode('bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4'),
        'bech32 bad': lambda: bech32_decode('bc1'), 'tx': lambda: netlib.call('tx', net, '11' * 32), 'tx amount': lambda: netlib.call('amount', net, '11' * 32), 'push': lambda: netlib.call('push', net, signed()),
        'balance of': lambda: netlib.call('balance', net, addr), 'history of': lambda: netlib.call('history', net, addr), 'coins of': lambda: netlib.call('unspent', net, addr),
        'balance of other': lambda: netlib.call('balance', other, lib.key_wallet(other).addr),
        'pair': lambda: len(keygen.generate_key_address_pair()), 'vanity any': lambda: len(keygen.generate_matching_address('')), 'vanity bad': lambda: keygen.generate_matching_address('1bO'),
        'vanity bad char': lambda: keygen.generate_matching_address('é', cores=1),
        'bad wif': lambda: wif_to_key('5' * 51), 'bad key': lambda: C.from_int(0), 'later': lambda: setattr(env.STATE, 'now', env.STATE.now + 10**5),
        'rpc': lambda: NetworkAPI.connect_to_node('u', 'p', host='node.example', port=8332, testnet=net == 'test').getblockcount(),
    })
    return c


def _has_cert():
    import inspect

    return 'path_to_cert' in inspect.signature(NetworkAPI.connect_to_node).parameters


HEAVY = ('select all', 'select', 'select poor')  # tried alone


# ------------------------------------------------------------------ the monitor
EVENTS = []
ON = [False]
BAD = ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.forkpty', 'socket.connect', 'socket.bind', 'socket.sendto', 'socket.getaddrinfo', 'os.putenv', 'os.unsetenv', 'os.chdir', 'os.mkdir', 'os.rename',
       'os.remove', 'os.rmdir', 'os.symlink', 'os.link', 'os.chmod', 'os.chown', 'os.truncate', 'shutil.rmtree', 'shutil.copyfile', 'shutil.move', 'signal.pthread_kill', 'os.kill', 'os.killpg', 'sqlite3.connect',
       'tempfile.mkstemp', 'tempfile.mkdtemp', '_thread.start_new_thread', 'sys.settrace', 'sys.setprofile', 'resource.setrlimit', 'syslog.syslog', 'webbrowser.open', 'ctypes.dlopen', 'sys._setrecursionlimit')


def _audit(ev, args):
    if not ON[0]:
        return
    if ev == 'open':
        path, mode, flags = (args + (None, None))[:3]
        if (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            EVENTS.append('the file %r is opened for writing' % (path,))
    elif ev in BAD:
        EVENTS.append('%s %s' % (ev, str(args)[:200]))


sys.addaudithook(_audit)
HOSTS = ['plain', 'odd', 'strict']


def host(kind):
    """The application's own settings."""
    if kind == 'odd':
        decimal.getcontext().prec = 5
        decimal.getcontext().rounding = decimal.ROUND_UP
        sys.setrecursionlimit(777)
        socket.setdefaulttimeout(3.25)
        os.environ['TZ'] = 'Asia/Kolkata'
        os.umask(0o27)
        warnings.simplefilter('default')
        sys.setswitchinterval(0.017)
        logging_on()
    elif kind == 'strict':
        decimal.getcontext().traps[decimal.Inexact] = True
        decimal.getcontext().traps[decimal.FloatOperation] = True
        decimal.getcontext().Emax = 40
        warnings.simplefilter('error')
        socket.setdefaulttimeout(60)


def logging_on():
    import logging

    logging.disable(logging.NOTSET)
    logging.root.handlers[:] = [logging.NullHandler()]
    logging.root.setLevel(logging.WARNING)
    logging.getLogger('urllib3').setLevel(logging.INFO)


class Monitor:
    def __init__(self, ctx):
        self.ctx = ctx

    def start(self):
        self.s = hoststate.settings()
        self.p = hoststate.patched()

    def run(self, what, f, full=True):
        so, se = sys.stdout, sys.stderr
        bo, be = io.StringIO(), io.StringIO()
        err = res = None
        EVENTS.clear()
        env.STATE.seeded.clear()
        sys.stdout, sys.stderr = bo, be
        a = hoststate.settings()
        ON[0] = True
        try:
            res = f()
        except Violation:
            raise
        except Exception as e:
            err = e
        finally:
            ON[0] = False
            b = hoststate.settings()
            moved = sys.stdout is not bo or sys.stderr is not be
            sys.stdout, sys.stderr = so, se
        self.ctx.step()
        if moved:
            raise Violation('%s replaced the standard streams' % what)
        if err is not None:
            # the error refers to nothing that stays open
            err = err.with_traceback(None)
        d = hoststate.differ(a, b)
        if d:
            raise Violation('%s changed %s' % (what, d))
        if EVENTS:
            raise Violation('%s touched the system: %s' % (what, EVENTS[0]))
        if env.STATE.seeded:
            raise Violation('%s seeded the random generator of the process' % what)
        if bo.getvalue() or be.getvalue():
            raise Violation('%s wrote to the console: %r' % (what, (bo.getvalue() + be.getvalue())[:200]))
        if full:
            q = hoststate.patched()
            d = hoststate.repatched(self.p, q)
            if d:
                raise Violation('%s replaced %s' % (what, d))
        return res, err


# ------------------------------------------------------------------ exploration
MODS = ['bit', 'bit.network', 'bit.network.services', 'bit.network.rates', 'bit.network.fees', 'bit.network.meta', 'bit.wallet', 'bit.transaction', 'bit.keygen', 'bit.format', 'bit.utils', 'bit.crypto', 'bit.curve',
        'bit.base32', 'bit.base58', 'bit.constants', 'bit.exceptions', 'bit.cli']
CORE = ['node', 'node https', 'timeout', 'new', 'to', 'to usd', 'from cached', 'bad conversion', 'fee', 'fee now', 'select few', 'create many', 'create btc', 'parse bad', 'script bad', 'push', 'history of', 'coins of', 'later',
        'balance', 'balance usd', 'coins', 'create no fee', 'create poor', 'send', 'prepared and signed', 'cosign', 'sign', 'import any', 'exports', 'sign garbage']


def units(tier):
    us = [{'t': 'import'}]
    for kind, net in c28.SUBJECTS:
        for node in (False, True):
            us.append({'t': 'faults', 'k': kind, 'net': net, 'node': node, 'dev': 1, 'full': True})
            us.append({'t': 'faults', 'k': kind, 'net': net, 'node': node, 'dev': 2, 'full': False})
    for kind, net in (('c', 'main'), ('c', 'test'), ('23', 'main'), ('22', 'test')) if tier == 'quick' else c28.SUBJECTS:
        us += [{'t': 'seq', 'k': kind, 'net': net, 'part': p, 'parts': 4, 'L': 2} for p in range(4)]
    us += [{'t': 'hosts', 'k': kind, 'net': net, 'host': h} for kind, net in c28.SUBJECTS for h in HOSTS]
    if tier != 'quick':
        us += [{'t': 'seq', 'k': k, 'net': n, 'part': p, 'parts': 16, 'L': 3} for k, n in (('c', 'main'), ('22', 'test')) for p in range(16)]
    return us


def run_unit(ctx, u):
    env.reset()
    {'import': imports, 'faults': with_faults, 'seq': sequences, 'hosts': hosts}[u['t']](ctx, u)


def fresh(u):
    """A subject in a library nothing has been connected to."""
    S = c28.Subject(u['k'], u['net'])
    return S, calls(S), c28.world(S)


def warm():
    """Let requests, the codecs and the harness fill their caches, in a way
    that does not depend on the library under test."""
    for v in ('no_proxy', 'NO_PROXY', 'NETRC'):
        os.environ.pop(v, None)
    import encodings.idna  # noqa
    import encodings.utf_8  # noqa

    env.NET.reset(lambda q: (200, '{}'))
    for m in ('GET', 'POST'):
        requests = env.requests
        requests.request(m, 'https://user:pw@host.example/', timeout=1).json()
    env.NET.reset()
    repr(hoststate.settings())


def with_faults(ctx, u):
    warm()
    S, cs, inner = fresh(u)
    if u['node']:
        NetworkAPI.connect_to_node('user', 'password', host='node.example', port=8332, testnet=u['net'] == 'test')
    M = Monitor(ctx)
    M.start()
    alpha = c28.faults(u['full'])
    for name, f in cs.items():
        if name.startswith('node') or name == 'rpc' or name in HEAVY:
            continue

        def one(ch):
            env.reset()  # draws of the random generator are not what is enumerated here

            def handler(q):
                c = ch.choose(len(alpha) + 1)
                if not c:
                    return inner(q)
                r = alpha[c - 1](q)
                if isinstance(r, Exception):
                    raise r
                return r

            env.NET.reset(handler)
            env.STATE.now += 10**6 * (1 + ctx.execs)
            ctx.case((u, name, tuple(ch.prefix)))
            res, err = M.run(name, f, full=False)
            ctx.outcome('%s %s' % (name, 'raises' if err is not None else 'returns'))

        explore(one, max_dev=u["dev"], ctx=ctx)
    d = hoststate.repatched(M.p, hoststate.patched())
    if d:
        raise Violation('the calls replaced %s' % d)


def sequences(ctx, u):
    warm()
    S, cs, inner = fresh(u)
    names = [n for n in cs if (u['L'] == 2 or n in CORE) and n not in HEAVY]
    for first in names[u['part']::u['parts']]:
        def go(first=first):
            S, cs, inner = fresh(u)
            M = Monitor(ctx)
            M.start()
            n = 0
            for rest in itertools.product(names, repeat=u['L'] - 1):
                for down in (False, True):
                    env.reset()
                    env.NET.reset(inner)
                    env.STATE.now += 10**6 * (1 + n)
                    n += 1
                    seq = (first,) + rest
                    for i, name in enumerate(seq):
                        if down and i == len(seq) - 1:
                            env.NET.handler = None
                        M.run(' then '.join(seq[:i + 1]), cs[name], full=n % 40 == 0)
            d = hoststate.repatched(M.p, hoststate.patched())
            if d:
                raise Violation('the sequences beginning with %r replaced %s' % (first, d))
            return n

        for rest in itertools.product(names, repeat=u['L'] - 1):
            for down in (False, True):
                ctx.case((u['k'], u['net'], first, rest, down))
        ctx.step(isolated(go) * (u['L'] - 1))
    ctx.outcome('left alone')


def outcome(r):
    res, err = r
    if err is not None:
        return 'error ' + type(err).__name__
    if isinstance(res, (str, int, bytes, float, bool, type(None))):
        return repr(res)
    if isinstance(res, (list, tuple)) and all(isinstance(x, (str, int, bytes)) for x in res):
        return repr(res)
    return type(res).__name__


def hosts(ctx, u):
    """The application's settings neither change nor matter."""
    warm()
    S, cs, inner = fresh(u)

    def go(kind, name):
        env.reset()
        S, cs, inner = fresh(u)
        env.STATE.urandom = lambda n: b'\x17' * n
        env.NET.reset(inner)
        host(kind)
        M = Monitor(ctx)
        M.start()
        out = [outcome(M.run('%s (host settings %s)' % (name, kind), cs[name]))]
        env.STATE.now += 10**5
        out.append(outcome(M.run('%s again (host settings %s)' % (name, kind), cs[name])))
        return out

    for name in cs:
        ctx.case((u['k'], u['net'], u['host'], name), calls=2)
        got = isolated(go, u['host'], name)
        want = got if u['host'] == 'plain' else isolated(go, 'plain', name)
        ctx.eq(got, want, '%s with the host settings %s' % (name, u['host']))
        ctx.outcome('the same')


IMPORT = r'''
import sys, os, io
sys.dont_write_bytecode = True
sys.path.insert(0, %(verif)r)
import importlib.util
spec = importlib.util.spec_from_file_location('hoststate', %(hs)r)
hs = importlib.util.module_from_spec(spec); spec.loader.exec_module(hs)
import argparse, collections, itertools, math, queue, multiprocessing, multiprocessing.queues, binascii, functools, time, urllib.parse, concurrent.futures, coincurve.utils, coincurve.ecdsa, inspect, contextlib, copy, re, base64, typing, datetime
try:
    import click
except ImportError:
    pass
if %(odd)r:
    hs.decimal.getcontext().prec = 5; hs.socket.setdefaulttimeout(2); hs.sys.setrecursionlimit(654); hs.random.seed(4)
bad = []
seeded = []
real = hs.random.seed
hs.random.seed = lambda *a, **k: seeded.append(a)
on = [False]
def audit(ev, args):
    if on[0]:
        if ev == 'open':
            p, m, fl = (args + (None, None))[:3]
            if (isinstance(m, str) and any(c in m for c in 'wax+')) or (isinstance(fl, int) and fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                bad.append('opens %%r for writing' %% (p,))
        elif ev in %(bad)r:
            bad.append('%%s %%s' %% (ev, str(args)[:100]))
sys.addaudithook(audit)
sys.path.insert(0, %(repo)r)
so, se = sys.stdout, sys.stderr
sys.stdout, sys.stderr = bo, be = io.StringIO(), io.StringIO()
a, p = hs.settings(False), hs.patched()
on[0] = True
try:
    for m in %(mods)r:
        try:
            __import__(m)
        except ImportError as e:
            if 'bit' in (e.name or ''):
                raise
finally:
    on[0] = False
    b, q = hs.settings(False), hs.patched()
    sys.stdout, sys.stderr = so, se
d = hs.differ(a, b) or hs.repatched(p, q)
if d: print('BAD importing changed ' + d)
elif bad: print('BAD importing ' + bad[0])
elif seeded: print('BAD importing seeded the random generator')
elif bo.getvalue() or be.getvalue(): print('BAD importing printed ' + repr(bo.getvalue() + be.getvalue()))
else: print('OK')
'''


def imports(ctx, u):
    orders = [MODS, MODS[::-1]] + [[m] for m in MODS]
    for odd in (False, True):
        for order in orders:
            code = IMPORT % dict(verif='/nonexistent', hs=hoststate.__file__, repo=env.REPO, mods=order, bad=BAD, odd=odd)
            r = subprocess.run([sys.executable, '-B', '-I', '-c', code], capture_output=True, text=True, timeout=120)
            ctx.case(('import', odd, tuple(order)), calls=len(order))
            out = r.stdout.strip()
            if out.startswith('BAD'):
                raise Violation(out[4:], order=order)
            if out != 'OK':
                raise Violation('import fails: %s %s' % (out, r.stderr[-600:]))
            ctx.outcome('import')
