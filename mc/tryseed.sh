#!/bin/bash
# tryseed.sh ID [check args]: confirm a planted bug in /repo (tests, demo, check), then undo it
cd /verif
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
shift
git -C /repo diff --quiet || { echo "repo not clean"; exit 1; }
(cd /repo && bash $S/demo.sh >/tmp/demo0.log 2>&1); echo "demo clean: $?"
git -C /repo apply $S/patch.diff || exit 1
(cd /repo && bash $S/demo.sh >/tmp/demo1.log 2>&1); echo "demo patched: $?"; tail -3 /tmp/demo1.log
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/build.log 2>&1; echo "build $?"
bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/seedtest.json'))
p=set(r.get('passed') or r.get('pass') or [k for k,v in r.items() if v in ('pass','passed')])
print('tests lost:', sorted(set(b['stable'])-p))
X
fi
./check.py $P "$@"; echo "check exit $?"
git -C /repo checkout -- .
