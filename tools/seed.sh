#!/bin/bash
# seed.sh ID: confirms a planted bug in a scratch copy: tests pass, demo passes without it and fails with it.
. /opt/vp/env.sh
id=$1; s=/verif/seeded/$id; wt=/tmp/wt
[ -d $wt ] || cp -a /repo $wt
git -C $wt fetch -q /repo HEAD && git -C $wt checkout -q -f FETCH_HEAD
cp /verif/tools/demo/demo.sh /verif/tools/demo/h.rs $s/ 2>/dev/null
(cd $wt && bash $s/demo.sh >/tmp/demo0.log 2>&1); a=$?
git -C $wt apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
sed "s#/repo#$wt#g" /opt/vp/build.sh > /tmp/wbuild.sh; sed "s#/repo#$wt#g" /opt/vp/test.sh > /tmp/wtest.sh
bash /tmp/wbuild.sh >/tmp/wbuild.log 2>&1 || { echo "$id: does not build"; tail -20 /tmp/wbuild.log; }
bash /tmp/wtest.sh /tmp/w.json >/dev/null 2>&1
t=$(python3 -c "
import json;a=json.load(open('/tmp/w.json'));b=json.load(open('/opt/vp/BASELINE.json'))
b=b.get('passed') or b.get('stable') or b.get('tests') or b
m=[x for x in b if x not in a['passed']]
print(len(a['passed']),m[:8])")
(cd $wt && bash $s/demo.sh >/tmp/demo1.log 2>&1); b=$?
git -C $wt checkout -q -- .
echo "$id: demo without=$a with=$b ($(tail -1 /tmp/demo1.log | cut -c1-150)); tests $t"
