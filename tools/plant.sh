#!/bin/bash
# plant.sh ID [nobuild]: confirm a planted bug (/verif/seeded/ID) in a scratch copy of /repo that is mounted over /repo
# in a private mount namespace: builds, runs the stable tests, the demonstration and the property's check.
exec 9>/tmp/w/lock; flock 9
ID=$1; S=/verif/seeded/$ID; W=/tmp/w
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W; [ -d $W/repo ] || cp -a /repo $W/
rsync -rcl --no-times --delete --exclude _build --exclude .git /repo/ $W/repo/ 2>/dev/null || cp -a /repo/include /repo/sources $W/repo/
timeout 300 bash -c "cd /repo && bash $S/demo.sh" > $W/demo0.log 2>&1; echo "demo unchanged rc=$?"
unshare -Urm bash -c "
mount --bind $W/repo /repo; cd /repo
git apply --check $S/patch.diff && git apply $S/patch.diff || exit 3
if [ -z '$2' ]; then
bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1; python3 /verif/tools/stable.py $W/out.json
timeout 300 bash $S/demo.sh > $W/demo1.log 2>&1; echo demo patched rc=\$?
fi
timeout 900 python3 /verif/tools/check.py $P > $W/check.log 2>&1; echo check $P rc=\$?
grep VIOLATION $W/check.log | head -5
git apply -R $S/patch.diff
"
