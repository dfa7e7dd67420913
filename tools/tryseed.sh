#!/bin/bash
# usage: tryseed.sh ID...   confirm planted bugs in a scratch copy: patch applies, builds, stable tests pass, demo passes without / fails with it
W=${W:-/tmp/wt}
[ -d $W ] || { mkdir -p $W; cp -a /repo/. $W/; }
cd $W || exit 2
for id in "$@"; do
  S=/verif/seeded/$id
  git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
  [ -n "$SKIPBASE" ] || { bash $S/demo.sh > /tmp/demo0.log 2>&1; d0=$?; }
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  (. /opt/vp/env.sh; cd $W; export PROPTEST_RNG_SEED=1 PROPTEST_DISABLE_FAILURE_PERSISTENCE=true; timeout 840 cargo test $SCOPE --no-fail-fast --offline -- --test-threads 8) > /tmp/seed.$id.log 2>&1
  python3 /opt/vp/results.py /tmp/seed.$id.json cargo:/tmp/seed.$id.log
  bash $S/demo.sh > /tmp/demo1.log 2>&1; d1=$?
  python3 - "$id" "$d0" "$d1" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.%s.json'%sys.argv[1]))
base=set(b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')); got=set(r['passed'])
print(sys.argv[1],'missing tests:',len(base-got),sorted(base-got)[:3],'demo unchanged/patched:',sys.argv[2],sys.argv[3], 'OK' if not base-got and sys.argv[2]=='0' and sys.argv[3]!='0' else 'BAD')
P
done
git checkout -q -- .
