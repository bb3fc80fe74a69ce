#!/bin/bash
# seedtest.sh ID...: in a scratch copy: patch applies, builds, passes the stable tests, demo fails with / passes without it, which check catches it
S=${S:-/tmp/seedrepo}
[ -d $S ] || cp -a /repo $S
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
  chmod +x $d/demo.sh
  ( cd $S && bash $d/demo.sh >$S.demo0 2>&1 ); r0=$?
  git -C $S apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  ( cd $S && bash $d/demo.sh >$S.demo1 2>&1 ); r1=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    unshare -rm bash -c "mount --bind $S /repo && bash /opt/vp/test.sh $S.out.json" >$S.build 2>&1
    t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))["stable"]; r=json.load(open('$S.out.json'))
p=set(r.get("passed") or [k for k,v in r.get("results",{}).items() if v in("pass","passed")])
m=[x for x in b if x not in p]
print("ok" if not m else "FAILED "+str(len(m))+" "+str(m[:3]))
P
)
  fi
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s)
  DTL_REPO=$S python3 /verif/tools/check.py $p >$S.check.$id 2>&1; rc=$?
  e=$(date +%s)
  git -C $S checkout -q -- .
  echo "$id ($p): demo clean=$r0 patched=$r1 tests=$t check rc=$rc ($((e-s))s) $(grep -c '^VIOLATION' $S.check.$id) violations: $(grep -m1 '^  ' $S.check.$id | cut -c1-150)"
done
