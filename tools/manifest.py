#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(H, 'mc', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    src = open(f).read()
    level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
    tech = re.search(r"^TECHNIQUE = '(.*)'", src, re.M)
    tech = tech.group(1) if tech else 'bounded exhaustive (stateless) exploration of the real code against an independent reference model'
    ns = {}
    m = re.search(r"^BOUNDS = (\(.*?\)\n|'.*?'\n)", src, re.M | re.S)
    note = eval(m.group(1)) if m else ''
    checks.append({'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
                   'technique': 'model checking: ' + tech, 'level': level, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
