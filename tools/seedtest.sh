#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy bound over /repo in a private mount namespace, and runs their check.
# Never registered as a check.
V=${V:-/verif}
for id in "$@"; do
	W=$(mktemp -d /tmp/seed.XXXXXX)
	cp -a /repo $W/repo
	( cd $W/repo && git checkout -q -- . && git apply $V/seeded/$id/patch.diff ) || { echo "$id: PATCH FAILS"; rm -rf "$W"; continue; }
	cat > $W/run.sh <<X
mount --bind $W/repo /repo
cd /repo
bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$id: BUILD FAILS"; tail -20 $W/build.log; exit; }
bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
m=[x for x in b['stable'] if x not in set(t['passed'])]
print('$id: tests', 'pass' if not m else 'FAIL %d %s' % (len(m), m[:3]))
P
cp -r $V/seeded/$id $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
bash $W/demo/demo.sh > $W/demo.log 2>&1; echo "$id: demo with patch exits \$?  \$(tail -1 $W/demo.log)"
if [ -z "$NOCHECK" ]; then
P=\$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
cd $V; VERIF_EVIDENCE=$W ./check.py \$P > $W/check.log 2>&1; echo "$id: check exits \$?  \$(grep -A0 observed $W/check.log | head -1 | cut -c1-200) \$(grep VIOLATION $W/check.log | head -1)"
fi
X
	unshare -Urm bash $W/run.sh
	mkdir -p $W/d2; cp -r $V/seeded/$id/. $W/d2/; (cd /repo; bash $W/d2/demo.sh > $W/d2.log 2>&1; echo "$id: demo without patch exits $?")
	[ -n "$KEEP" ] && cp $W/*.log /tmp/
	rm -rf "$W"
done
