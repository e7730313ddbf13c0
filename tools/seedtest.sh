#!/bin/bash
# seedtest.sh [-t] ID... : for each planted bug: demo on clean tree, demo with patch, own check with patch; -t also runs the repo tests
TESTS=0; [ "$1" = -t ] && { TESTS=1; shift; }
for B in "$@"; do
  S=/verif/seeded/$B; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  (cd /repo; bash $S/demo.sh >/tmp/demo0.log 2>&1); R0=$?
  git -C /repo apply $S/patch.diff || { echo "$B: patch does not apply"; continue; }
  (cd /repo; bash $S/demo.sh >/tmp/demo1.log 2>&1); R1=$?
  (cd /verif; ./check.sh $P quick >/tmp/seedcheck.log 2>&1); RC=$?
  V=$(grep -c "VIOLATION property=$P" /tmp/seedcheck.log)
  T=-; if [ $TESTS = 1 ]; then bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1; T=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));s=set(b if isinstance(b,list) else b.get('stable',b.get('passed',[])));f=set(json.load(open('/tmp/st.json'))['failed']);print(len(f&s) if s else len(f))"); fi
  git -C /repo checkout -q -- .
  echo "$B prop=$P demo clean=$R0 patched=$R1 check rc=$RC viol=$V failing_tests=$T"
done
