#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": patch from the edited scratch copy /tmp/w/repo (then restored), demo.cpp from stdin
ID=$1; S=/verif/seeded/$ID; mkdir -p $S
cat > $S/demo.cpp
git -C /tmp/w/repo diff > $S/patch.diff; git -C /tmp/w/repo checkout -q -- .
cp /verif/tools/demo.sh.in $S/demo.sh; chmod +x $S/demo.sh
python3 -c "
import json,sys
json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$S/meta.json','w'),indent=1)" "$2" "$3" "$4"
