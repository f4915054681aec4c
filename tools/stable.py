#!/usr/bin/env python3
# stable.py OUT.json: which stable tests of the baseline did not pass
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
t = json.load(open(sys.argv[1]))
bad = [x for x in b['stable'] if x not in t['passed']]
print('stable', len(b['stable']), 'not passing', len(bad), bad[:3])
sys.exit(bool(bad))
