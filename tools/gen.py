#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import P
root = os.path.dirname(HERE)
P.sort(key=lambda x: x[0]['id'])
checks, na = [], []
with open(root + '/properties.jsonl', 'w') as fh:
    for d, tech, note, why in P:
        assert len(d['title']) <= 80, d['title']
        fh.write(json.dumps(d) + '\n')
        if tech:
            assert os.path.exists('%s/sa/rules/%s.py' % (root, d['id'].lower())), d['id']
            checks.append({'property': d['id'], 'quick_cmd': './check %s --tier quick' % d['id'],
                           'thorough_cmd': './check %s --tier thorough' % d['id'],
                           'technique': tech, 'level': 'other', 'level_note': note})
        else:
            na.append({'property': d['id'], 'reason': why})
m = {'version': 1,
     'setup_cmd': "python3 -B -c \"import sys; sys.path.insert(0, '.'); from sa import build; build.dumper()\"",
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check compiles /repo/src and the program mains to LLVM IR (clang 18, never executed), dumps it with '
              'sa/dumper/irdump.cpp and applies the rule in sa/rules/<id>.py. known_findings.txt lists recorded '
              'findings and repairs.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
