#!/usr/bin/env python3
"""regenerates MANIFEST.json from the property table"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 tools/check.py {i} --tier quick',
                           thorough_cmd=f'python3 tools/check.py {i} --tier thorough',
                           technique=P.get('technique', 'symbolic execution of the LLVM bitcode of the real sources with Z3 deciding every branch and assertion; counterexamples replayed natively'),
                           level='model_checking', level_note='Bounds: ' + P['bounds'] + '. Outside: ' + P.get('outside', '-')))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check yet')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na),
          open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
