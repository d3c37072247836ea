#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TRACE = ' Assumes the histories the seeded virtual-time scheduler produces (a random delay before every statement of the package) are representative; bounded program sizes.'
REC = ' Assumes nothing about the implementation; coverage is the generated inputs (exhaustive where stated, structured random otherwise).'
CLAIMS = {
 'C01': ('TLA+ spec Feed/FeedImpl: TLC refinement check plus TLC trace acceptance of recorded histories', 'Algorithm-level TLA+ model exhaustively checked to refine the abstract feed; thousands of recorded concurrent histories of the real Feed and FeedOf accepted by TLC against the abstract feed.' + TRACE),
 'C02': ('TLA+ spec FeedOrder: TLC trace acceptance of recorded concurrent histories', 'Every recorded history must be explained by one total order of Sends.' + TRACE),
 'C03': ('TLA+ specs FeedCancel and Feed: TLC trace acceptance; FeedImpl liveness checked by TLC', 'Safety of cancels per history, progress at every quiescent point, and liveness on the algorithm model.' + TRACE),
 'C04': ('TLA+ spec FeedTyped: TLC trace acceptance of histories mixing well- and ill-typed calls', 'Every recorded history with rejected calls must be a behaviour of the typed abstract feed.' + TRACE),
}
NA = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'claims.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'claims.py')) else None
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s thorough' % i,
                           technique=t, level='model_checking', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'machinery for this property is still being built')))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
               notes='Specifications in TLA+ (TLC); see DESIGN.md. No hooks are needed in /repo: schedule points are inserted by a build overlay.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(json.load(open(os.path.join(ROOT, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
