"""Development aid (no check uses it): try planted changes against the test
suite and the checks in scratch copies of /repo.

  mut.py SPECS.py [id ...] [-j N] [--all]   report: tests pass? property's check catches it?
  mut.py SPECS.py --write OUT [id ...]      write OUT/<id>/{patch.diff,demo.sh,demo.py,meta.json}
SPECS.py defines MUTS = {id: dict(prop=, edits=[(file, old, new[, count])], needs=, breaks=, demo=)}."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
ORIG = '7659475'


def load(p):
    g = {}
    exec(compile(open(p).read(), p, 'exec'), g)
    return g['MUTS'], g.get('PRE', '')


def copy(id):
    d = '/tmp/sw/' + id
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', os.environ.get('MUT_BASE', '/repo'), d], check=True)
    return d


def apply(d, m):
    for e in m['edits']:
        f, old, new = e[:3]
        p = d + '/' + f
        s = open(p).read()
        n = e[3] if len(e) > 3 else 1
        if s.count(old) != n and n != 'all':
            raise SystemExit('%s: %d matches for %r' % (f, s.count(old), old))
        if n == 'all' and old not in s:
            raise SystemExit('%s: no match for %r' % (f, old))
        open(p, 'w').write(s.replace(old, new))


def tests(d):
    x = d + '/.junit.xml'
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                    '-W', 'error:Unreachable API', '--ignore=tests/network/test_fees.py', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'],
                   cwd=d, env=ENV, capture_output=True)
    subprocess.run(['python3', '/opt/vp/results.py', d + '/.out.json', 'junit:' + x], capture_output=True)
    r = json.load(open(d + '/.out.json'))
    return sorted(BASE - set(r['passed']))


def check(d, prop, tier='quick'):
    env = dict(ENV, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER=tier, VERIF_EVIDENCE=d + '/.ev')
    p = subprocess.run([HERE + '/run.sh', prop, tier], cwd=HERE, env=env, capture_output=True, text=True)
    v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
    return p.returncode, v, p.stdout[-600:] + p.stderr[-600:]


def one(id, m, allp=False):
    d = copy(id)
    try:
        apply(d, m)
        t = tests(d)
        rc, v, out = check(d, m['prop'])
        extra = ''
        if m.get('demo'):
            extra = ' demo=%s' % demo(id, m, d)
        msg = '%-28s %s tests=%s check=%s%s' % (id, m['prop'], 'PASS' if not t else 'FAIL %s' % t[:3], {0: 'MISSED', 1: 'caught'}.get(rc, 'ERR%d' % rc), extra)
        if rc == 1:
            msg += '  ' + '; '.join(x for x in out.splitlines() if 'why' in x or 'violat' in x.lower())[:200]
        elif rc != 0:
            msg += '\n' + out
        return msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def demo(id, m, d):
    w = '/tmp/sw/demo-' + id
    shutil.rmtree(w, ignore_errors=True)
    write1(w, id, m, None)
    a = subprocess.run(['bash', w + '/demo.sh'], cwd='/repo', env=ENV, capture_output=True, text=True)
    b = subprocess.run(['bash', w + '/demo.sh'], cwd=d, env=ENV, capture_output=True, text=True)
    shutil.rmtree(w, ignore_errors=True)
    s = 'ok' if a.returncode == 0 and b.returncode != 0 else 'BAD(%d,%d)' % (a.returncode, b.returncode)
    if a.returncode:
        s += a.stderr[-500:]
    return s


def write1(w, id, m, d):
    os.makedirs(w)
    open(w + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(w + '/demo.sh', 0o755)
    open(w + '/demo.py', 'w').write(PRE.strip('\n') + '\n\n' + m['demo'].strip('\n') + '\n')
    if 'refbtc' in m['demo'] or 'ref.' in m['demo'] or 'valid(' in m['demo']:
        shutil.copy(HERE + '/mc/refbtc.py', w)
    json.dump({'property': m['prop'], 'needs': m['needs'], 'what_it_breaks': m['breaks']}, open(w + '/meta.json', 'w'), indent=1)
    if d:
        p = subprocess.run(['git', 'diff', '--', 'bit'], cwd=d, capture_output=True, text=True).stdout
        open(w + '/patch.diff', 'w').write(p)


def orig_lines(d):
    """every file's removed lines must (at least one) exist in the original"""
    p = subprocess.run(['git', 'diff', '-U0', '--', 'bit'], cwd=d, capture_output=True, text=True).stdout
    f = None
    ok = False
    for l in p.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
            o = set(subprocess.run(['git', 'show', ORIG + ':' + f], cwd=d, capture_output=True, text=True).stdout.splitlines())
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:] in o:
                ok = True
            else:
                print('  not original:', l)
        elif l.startswith('@@') and re.search(r'-\d+,0 ', l):
            ok = ok or 'insert-only'
    return ok


if __name__ == '__main__':
    a = sys.argv[1:]
    M, PRE = load(a.pop(0))
    j = 3
    if '-j' in a:
        i = a.index('-j')
        j = int(a[i + 1])
        del a[i:i + 2]
    if a and a[0] == '--write':
        out = a[1]
        for id in a[2:] or M:
            m = M[id]
            if not m.get('demo'):
                continue
            d = copy(id)
            apply(d, m)
            o = orig_lines(d)
            if o is not True:
                print(id, 'original lines changed:', o)
            shutil.rmtree(out + '/' + id, ignore_errors=True)
            write1(out + '/' + id, id, m, d)
            shutil.rmtree(d)
    else:
        ids = a or list(M)
        with ThreadPoolExecutor(j) as ex:
            for r in ex.map(lambda i: one(i, M[i]), ids):
                print(r, flush=True)
