#!/usr/bin/env python3
"""derives properties.jsonl, MANIFEST.json and DESIGN.md from props.py and design_head.md/design_tail.md"""
import json, os, glob
from props import P
H = os.path.dirname(os.path.abspath(__file__))
with open(H + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    assert os.path.exists('%s/checks/%s.py' % (H, p['id'])), p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every check compiles the unmodified sources to LLVM IR and analyses that. See DESIGN.md.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
# DESIGN.md
out = [open(H + '/design_head.md').read().rstrip(), '', '## Properties, one by one', '']
seeds = {}
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    j = json.load(open(d))
    seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(d)), j))
for p in P:
    out.append('### %s %s' % (p['id'], p['title']))
    out.append(p['statement'])
    if p['na']:
        out.append('*Not applicable:* ' + p['na'])
    else:
        out.append('*Decided by* %s. %s' % (p['technique'], p['design']))
        out.append('*Assurance:* ' + p['note'])
        if p['id'] in seeds:
            out.append('*Seeded changes:* ' + '; '.join('`%s` (%s)' % (a, j.get('what_it_breaks', '')) for a, j in seeds[p['id']]))
    out.append('')
out.append(open(H + '/design_tail.md').read().rstrip())
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
