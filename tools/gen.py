#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and vp/registry.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/tools', R + '/vp']
sys.dont_write_bytecode = True
from props import ALL
from registry import PROPS
try:
    from registry import NA
except ImportError:
    NA = {}
with open(R + '/properties.jsonl', 'w') as f:
    for p in ALL:
        assert len(p['title']) <= 80, p['id']
        for x in p['anchors']['files']:
            assert os.path.exists('/repo/' + x), x
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in ALL:
    i = p['id']
    if i in PROPS and i not in NA:
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=PROPS[i].get('technique', 'symbolic execution of the compiled LLVM IR of the real headers, assertions decided by z3, counterexamples replayed natively'),
            level='model_checking',
            level_note='Bounded: ' + PROPS[i].get('bounds', '') + '. Every path within the bounds, all values of the symbolic inputs and of the right-hand side. '
            'Trusts the IR executor (validated against machine code on each run), z3, and real arithmetic standing in for rounding (tolerances in the assertions).'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3' && clang++ --version >/dev/null && g++ --version >/dev/null",
         hooks=dict(guard='VP_NO_HOOKS_NEEDED', enable='no hooks: the harnesses include the headers of /repo as they are', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
