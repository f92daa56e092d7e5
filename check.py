#!/opt/venv/bin/python
"""Runs the check of one property:  check.py C01 [--tier quick|thorough] [--replay FILE] [-v]"""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-B'] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)

LEVELS = ('exploration', 'fault_enumeration', 'model_checking')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--only', help='only units whose repr contains this')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        from mc import env, explorer
    except Exception:
        # The library does not even import any more: no property of it holds.
        import traceback

        tb = traceback.format_exc()
        if (os.environ.get('VERIF_REPO', '/repo') + '/bit/') in tb:
            os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
            path = os.path.join(HERE, 'evidence', 'replays', a.prop + '.json')
            json.dump({'property': a.prop, 'message': 'import failed', 'trace': tb}, open(path, 'w'))
            print(tb)
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
            return 1
        raise
    mod = importlib.import_module('mc.checks.' + a.prop.lower())
    explorer.KNOWN.update(load_known(a.prop))
    if a.replay:
        rp = json.load(open(a.replay))
        units = [rp['unit']]
        tier = rp.get('tier', a.tier)
    else:
        tier = a.tier
        units = mod.units(tier)
        if a.only:
            units = [u for u in units if a.only in repr(u)]
    wall = 780 if tier == 'quick' else 6 * 3600
    res, took = explorer.run_units(mod, units, tier, seed, jobs=a.jobs, verbose=a.v, wall=wall)
    bad = [(i, r) for i, r in sorted(res.items()) if r['status'] == 'violation']
    err = [(i, r) for i, r in sorted(res.items()) if r['status'] == 'error']
    execs = sum(r['execs'] for r in res.values())
    calls = sum(r['calls'] for r in res.values())
    states = set()
    for r in res.values():
        states |= r['states']
    outcomes = {}
    samples = []
    capped = []
    kn = {}
    for i, r in sorted(res.items()):
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        if i % max(1, len(units) // 12) == 0:
            samples += r['samples'][-1:]
        capped += [c for c in r['capped'] if c not in capped]
        kn.update(r['known'])
    ndone = sum(1 for r in res.values() if r['status'] == 'ok')
    cov = dict(units=len(units), units_completed=ndone, samples=samples[:12] or ['none'],
               outcomes=dict(sorted(outcomes.items(), key=lambda x: -x[1])[:25]), caps=capped,
               bounds=getattr(mod, 'BOUNDS', ''), exhaustive=bool(ndone == len(units) and not capped and not bad))
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(states), transitions=calls, traces_validated_against_impl=execs)
    else:
        cov.update(evaluations=execs, distinct_nontrivial=len(states), rule=mod.RULE, library_calls=calls)
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    ev = dict(property=a.prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, wall_s=round(took, 2),
              violations=len(bad), assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    if not a.replay and not a.only:
        json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d units, %d executions, %d calls, %d states, %d outcomes, %.1fs%s' % (
        a.prop, tier, ndone, len(units), execs, calls, len(states), len(outcomes), took, ' CAPPED ' + str(capped) if capped else ''))
    for k, text in sorted(kn.items()):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, text))
    if bad:
        i, r = bad[0]
        path = os.path.join(HERE, 'evidence', 'replays', '%s-%d.json' % (a.prop, i))
        json.dump(dict(property=a.prop, tier=tier, unit=r['unit'], case=r['cur'] if isinstance(r['cur'], (str, int, list, dict, type(None))) else repr(r['cur']),
                       message=r['msg'], detail=r.get('detail'), trace=r.get('tb'),
                       how='check.py %s --replay THISFILE re-executes this unit deterministically' % a.prop), open(path, 'w'), indent=1, default=repr)
        print('case: %s' % explorer._short(r['cur'], 1500))
        print('what: %s' % r['msg'])
        if a.v or a.replay:
            print(r.get('tb'))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if err:
        for i, r in err[:3]:
            print('HARNESS ERROR unit %r: %s\n%s' % (r['unit'], r['msg'], r.get('tb', '')))
        return 2
    return 0


def load_known(prop):
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % prop):
                key, _, text = line.strip().split(' ', 2)[2].partition(' ')
                out[key] = text
    return out


sys.exit(main())
