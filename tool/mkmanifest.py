#!/usr/bin/env python3
"""writes MANIFEST.json from lib/floors.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + '/lib/floors.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
T = {'laws': 'value-dependence summaries (gated SSA value numbering over all paths) of law and implementation, compared per path',
     'rules': 'dataflow and typestate rules over the resolved program (call sites, paths, ownership)',
     'ast': 'rules over the syntax tree'}
for p in props:
    c = conf.get(p['id'])
    if not c or 'na' in c:
        na.append({'property': p['id'], 'reason': (c or {}).get('na', 'no check built yet')})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                   'technique': c.get('technique') or '; '.join(T[k] for k in c.get('kinds', ['laws'])),
                   'level': c.get('level', 'proof'),
                   'level_note': c.get('note', 'Every law is decided for all inputs on all paths of the current sources; trusts the clang front '
                                       'end, the summary engine and its models of the standard library, and the laws themselves. Signed '
                                       'overflow, aliasing arguments and containers of 2^31 elements are out of scope.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tool/setup.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
