#!/bin/bash
# usage: tools/try_bug.sh ID [notests] [seed]
# Confirms a planted bug in a private copy of /repo (mounted over /repo in a
# namespace of its own) and runs the check of its property against it.
ID=$1; SRC=/verif/seeded/$ID; SEED=${3:-1}
PROP=$(python3 -c "import json;print(json.load(open('$SRC/meta.json'))['property'])")
COPY=$(mktemp -d /tmp/plant.XXXXXX)
DEMO=$(mktemp -d /tmp/demo.XXXXXX)
cp -a /repo/. $COPY; cp -a $SRC/. $DEMO; rm -f $DEMO/*.diff $DEMO/meta.json
unshare -Urm bash -s <<S
mount --bind $COPY /repo
cd /repo && git checkout -q -- . 
bash /opt/vp/build.sh || echo "BUILD BROKEN ON CLEAN"
timeout 300 bash $DEMO/demo.sh >$COPY.demo0 2>&1; a=\$?
git apply $SRC/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh || echo "BUILD BROKEN"
timeout 300 bash $DEMO/demo.sh >$COPY.demo1 2>&1; b=\$?
if [ "$2" != notests ]; then
  bash /opt/vp/test.sh $COPY.json >/dev/null 2>&1
  t=\$(python3 -c "
import json
r=json.load(open('$COPY.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[x for x in s if x not in r['passed']];print('tests', 'OK' if not bad else bad[:5])")
fi
cd /verif && python3 run_check.py $PROP --seed $SEED > $COPY.chk 2>&1; c=\$?
echo "$ID $PROP demo clean=\$a patched=\$b \$t check rc=\$c"
[ \$a != 0 ] && tail -5 $COPY.demo0
[ \$b = 0 ] && tail -5 $COPY.demo1
grep -m3 VIOLATION $COPY.chk | cut -c1-300
S
[ -n "$KEEP" ] && cp $COPY.chk /tmp/$ID.chk
rm -rf $COPY $DEMO $COPY.demo0 $COPY.demo1 $COPY.json $COPY.chk
