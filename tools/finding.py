#!/usr/bin/env python3
"""tools/finding.py PROP COMMIT TEXT: record a repaired defect in known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
k = json.load(open(p))
pr, co, tx = sys.argv[1:4]
k.append(dict(id='F%02d' % (len(k) + 1), status='fixed', property=pr, commit=co, what='fixed: property=%s %s %s' % (pr, co, tx)))
json.dump(k, open(p, 'w'), indent=1)
