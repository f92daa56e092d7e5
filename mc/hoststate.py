"""What a process has besides the library: a snapshot of the settings and
functions every other part of the application relies on."""
import atexit
import builtins
import codecs
import decimal
import gc
import hashlib
import http.client
import json
import locale
import logging
import os
import random
import secrets
import signal
import socket
import ssl
import sys
import threading
import time
import types
import warnings

import requests
import requests.adapters
import requests.sessions
import urllib3
import coincurve

MODULES = [builtins, codecs, decimal, gc, hashlib, json, json.decoder, json.encoder, locale, logging, os, os.path, random, secrets, signal, socket, ssl, sys, threading, time, types, warnings,
           requests, requests.adapters, requests.sessions, requests.models, requests.utils, urllib3, coincurve, http.client]
CLASSES = [requests.Session, requests.Response, requests.adapters.HTTPAdapter, decimal.Context, threading.Thread, json.JSONDecoder, json.JSONEncoder, socket.socket, random.Random, coincurve.PrivateKey, coincurve.PublicKey,
           http.client.HTTPConnection, http.client.HTTPSConnection, urllib3.PoolManager, urllib3.HTTPConnectionPool, urllib3.HTTPSConnectionPool, urllib3.Retry, requests.PreparedRequest,
           requests.Request, json.JSONDecodeError, logging.Logger, logging.Handler, dict, list, str, int, float, bytes]
SKIP = {('sys', 'last_value'), ('sys', 'last_type'), ('sys', 'last_traceback'), ('sys', 'last_exc'), ('builtins', '_')}
SIGNALS = [s for s in signal.Signals if s not in (signal.SIGKILL, signal.SIGSTOP, signal.SIGPROF)]


def ctx(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted((k.__name__, v) for k, v in c.traps.items())))


def names(m):
    """name -> what must stay the same."""
    out = {}
    for k, v in list(vars(m).items()):
        if (m.__name__, k) in SKIP or k.startswith('__'):
            continue
        if isinstance(v, (bool, int, float, str, bytes, type(None), tuple)):
            if not k.startswith('_'):
                out[k] = repr(v)
        elif callable(v) or isinstance(v, (classmethod, staticmethod, property)):
            out[k] = id(v)
    return out


def code(m):
    return {k: id(v.__code__) for k, v in vars(m).items() if isinstance(v, types.FunctionType)}


def loggers():
    out = {'root': (logging.root.level, len(logging.root.handlers), logging.root.disabled)}
    for n, l in logging.root.manager.loggerDict.items():
        if isinstance(l, logging.Logger) and n.split('.')[0] != 'bit':
            out[n] = (l.level, len(l.handlers), l.disabled, l.propagate)
    return out


def settings(files=True):
    """Cheap: taken after every call."""
    s = {
        'decimal context': ctx(decimal.getcontext()),
        'default decimal context': ctx(decimal.DefaultContext),
        'state of the random generator': hash(random.getstate()),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'limit of integer texts': sys.get_int_max_str_digits() if hasattr(sys, 'get_int_max_str_digits') else 0,
        'trace function': (sys.gettrace(), sys.getprofile(), threading._trace_hook if hasattr(threading, '_trace_hook') else None),
        'exception hook': (id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook), id(sys.displayhook)),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'module search path': (tuple(sys.path), len(sys.meta_path), len(sys.path_hooks)),
        'socket default timeout': socket.getdefaulttimeout(),
        'locale': locale.setlocale(locale.LC_ALL),
        'environment': hash(tuple(sorted(os.environ.items()))),
        'working directory': os.getcwd(),
        'signal handlers': tuple(id(signal.getsignal(x)) if not isinstance(signal.getsignal(x), (int, type(None))) else signal.getsignal(x) for x in SIGNALS),
        'alarm': signal.getitimer(signal.ITIMER_REAL),
        'warning filters': tuple(map(repr, warnings.filters)),
        'warning function': (id(warnings.showwarning), id(warnings.warn), id(warnings.formatwarning)),
        'logging': (logging.root.manager.disable, logging.raiseExceptions, id(logging.getLoggerClass())),
        'loggers': loggers(),
        'threads': threading.active_count(),
        'garbage collection': (gc.isenabled(), gc.get_threshold()),
        'https default': id(ssl._create_default_https_context),
        'session defaults': (requests.adapters.DEFAULT_RETRIES, requests.adapters.DEFAULT_POOLSIZE, requests.sessions.DEFAULT_REDIRECT_LIMIT),
        'json functions': (id(json._default_decoder), id(json._default_encoder)),
        'nice value': os.nice(0),
        'exit handlers': atexit._ncallbacks(),
        'built-in codec errors': tuple(id(codecs.lookup_error(x)) for x in ('strict', 'ignore', 'replace', 'backslashreplace')),
    }
    if hasattr(os, 'sched_getaffinity'):
        s['processor affinity'] = sorted(os.sched_getaffinity(0))
    u = os.umask(0o77)
    os.umask(u)
    s['umask'] = u
    if files:
        s['open files'] = len(os.listdir('/proc/self/fd'))
    return s


def patched():
    """Dear: other modules' functions and constants."""
    out = {}
    for m in MODULES + CLASSES:
        out[m.__name__] = (names(m), code(m))
    return out


def differ(a, b):
    """What is no longer as it was, in words, or None."""
    for k in a:
        if a[k] != b[k]:
            if k == 'loggers':
                for n in a[k]:
                    if a[k][n] != b[k].get(n):
                        return 'the logger %s (%r, before %r)' % (n, b[k].get(n), a[k][n])
                continue
            return 'the %s (%s, before %s)' % (k, b[k], a[k])
    return None


def repatched(a, b):
    for m in a:
        for i in (0, 1):
            for k, v in a[m][i].items():
                if k not in b[m][i] or b[m][i][k] != v:
                    return '%s.%s' % (m, k)
    for c in CLASSES:
        n = c.__name__
        for k in b[n][0]:
            if k not in a[n][0] and not k.startswith('_abc'):
                return '%s.%s' % (n, k)
    return None
