#!/usr/bin/env python3
# Writes MANIFEST.json from engine/specs.py (claimed) and tools/na.json (not claimed, with reasons).
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/engine')
import specs
na = json.load(open(R + '/tools/na.json'))
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 check.py --setup',
         checks=[], not_applicable=[],
         notes='See DESIGN.md. Every check compiles the harness bins with /repo for the listed targets, symbolically executes the machine code and replays counterexamples natively.')
for i in ids:
    if i in specs.SPECS:
        s = specs.SPECS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=s.get('tech', 'symbolic execution of the compiled real code + z3 (bit-vectors), all values within bounds; native replay of counterexamples'),
            level='model_checking',
            level_note='Bounded: %s. Assumes: %s.' % (s['bounds'], '; '.join(specs.COMMON_BOUNDS + s.get('assumes', [])))))
    else:
        m['not_applicable'].append(dict(property=i, reason=na[i]))
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
