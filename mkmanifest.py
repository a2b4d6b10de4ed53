#!/usr/bin/env python3
"""Source of MANIFEST.json: every property with a module in props/ is claimed."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = 'bounded exhaustive state/behaviour enumeration of the real code (explicit-state, stateless model checking) against an independent reference model'
TECHS = {
 'C01': 'explicit-state exploration of operation histories against a set model, every model trace replayed on the implementation',
 'C02': 'explicit-state exploration of operation histories against a damage model, every model trace replayed on the implementation',
 'C16': 'exhaustive exploration of directory-operation histories and of every cache truncation/corruption point on the real code',
 'C27': 'exhaustive exploration of operation histories and crash points of the store against a reference model',
 'C28': 'stateless exploration of all thread interleavings up to a preemption bound under a controlled scheduler',
 'C34': 'exhaustive fault injection: every read and write transfer of the real code made to fail or be interrupted',
}
NOTE = ('Every case within the stated bounds (alphabet, sizes, option settings, depths, fault points; listed in the evidence file) is executed on the '
        'code in /repo and compared with an independent oracle; nothing is sampled. Assumes small-scope: behaviour outside the alphabet and bounds is not covered. '
        'String hashing is pinned to 8 seeds.')
NA = {}
p = os.path.join(here, 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(here, 'props', i.lower() + '.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3 check.py {} --tier quick'.format(i), thorough_cmd='python3 check.py {} --tier thorough'.format(i),
            evidence_file='evidence/{}.json'.format(i), technique=TECHS.get(i, TECH), level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built for it')))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=checks, not_applicable=na,
    notes='python3 check.py ID [--tier quick|thorough] [--only SCENARIO] [--replay FILE]; see DESIGN.md'),
    open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
