#!/bin/bash
# builds the symbolic executor and warms the bitcode cache
cd "$(dirname "$0")/.." || exit 2
python3 - <<'P'
import sys
sys.path.insert(0, 'tools')
import check
print(check.engine())
for h in check.HARNESS:
    try:
        m, b = check.build_module(h)
        print(check.build_native(h, b))
    except check.NoAnswer as e:
        print(e)
P
