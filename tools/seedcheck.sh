#!/bin/bash
# seedcheck.sh ID...: validates planted bugs in a scratch copy of /repo: the patch applies, everything builds, the stable
# tests pass, demo.sh exits 0 on the clean tree and nonzero on the patched one.
R=/tmp/seedrepo; S=/verif/seeded
[ -d $R ] || cp -a /repo $R
mkdir -p $R/_build; sed "s#/repo#$R#g" /opt/vp/test.sh > $R/_build/seedtest.sh
for id in "$@"; do
  git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
  (cd $R && timeout 300 bash $S/$id/demo.sh >/tmp/seedrepo/_build/clean.log 2>&1); c=$?
  git -C $R apply $S/$id/patch.diff || { echo "$id: does not apply"; continue; }
  (cd $R && timeout 300 bash $S/$id/demo.sh >/tmp/seedrepo/_build/patched.log 2>&1); p=$?
  bash $R/_build/seedtest.sh $R/_build/out.json >$R/_build/test.log 2>&1
  t=$(python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("$R/_build/out.json"))
st=b.get("stable") or b.get("passed") or b
print(len(set(st)-set(o["passed"])), sorted(set(st)-set(o["passed"]))[:3])
PY
)
  echo "$id: clean=$c patched=$p missing-tests=$t $([ $c = 0 ] && [ $p != 0 ] && [ "${t%% *}" = 0 ] && echo OK || echo BAD)"
  tail -2 /tmp/seedrepo/_build/patched.log
  git -C $R reset -q --hard
done
