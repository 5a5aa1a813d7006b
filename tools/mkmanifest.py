#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl, registry.py and the reasons below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from registry import REGISTRY, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in REGISTRY:
        r = REGISTRY[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=r.get('technique', 'model checking: exhaustive stateless exploration of the real code against an independent reference model'),
            level=r.get('level', 'model_checking'),
            level_note=('Exhaustive within: %s. ' % r['bounds']) + r.get('note', '') +
                       ' '.join(r.get('assumptions', []))))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check registered yet (work in progress)')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks build the unmodified sources with the headers of lazperf/ (a stand-in for the '
               'laz-perf library, which is not installed here). See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
