#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property section of DESIGN.md from harness/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import specs
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid, s in specs.SPECS.items():
        if s.get('hidden'): continue
        f.write(json.dumps({'id': pid, 'title': s['title'], 'statement': s['statement'],
            'quantifier': {'over': s['over'], 'text': s['quant']}, 'why_tests_cant': s['why'],
            'anchors': {'files': s['files'], 'state': s['state'], 'mechanism': [{'name': a, 'where': b} for a, b in s['mech']],
                        'observe_at': s['observe'], 'hook_needed': None}}) + '\n')
    for n in specs.NOT_APPLICABLE: f.write(json.dumps(n['property']) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': [], 'not_applicable': [{'property': n['property']['id'], 'reason': n['reason']} for n in specs.NOT_APPLICABLE]}
for pid, s in specs.SPECS.items():
    if s.get('hidden'): continue
    m['checks'].append({'property': pid, 'quick_cmd': 'python3 tools/vf.py %s --tier quick' % pid, 'thorough_cmd': 'python3 tools/vf.py %s --tier thorough' % pid,
        'technique': 'bounded symbolic execution of the real C sources with CBMC (SAT), counterexamples replayed natively', 'level': 'model_checking',
        'level_note': s['note'] or ('Solver verdict over all values within the bounds: ' + s['bounds'] + ' Outside: ' + s['outside'])})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')

D = os.path.join(V, 'DESIGN.md')
t = open(D).read()
a, z = '<!-- properties -->\n', '<!-- end -->'
if a in t and z in t:
    o = ''
    for pid, s in specs.SPECS.items():
        if s.get('hidden'): continue
        q = sum(j.get('tier', 'quick') == 'quick' for j in s['jobs'])
        o += '**%s %s.** `harness/%s`, %d quick jobs%s. Encoded: %s. Bounds: %s Outside: %s Tests: %s\n\n' % (
            pid, s['title'], s['harness'], q, (', %d more in the thorough tier' % (len(s['jobs']) - q)) if len(s['jobs']) > q else '', '; '.join('%s (%s)' % m for m in s['mech']), s['bounds'], s['outside'], s['why'])
    open(D, 'w').write(t[:t.index(a) + len(a)] + o + t[t.index(z):])
