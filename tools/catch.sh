#!/bin/bash
# catch.sh [-p Cxx] ID...: applies each planted bug to a scratch copy of /repo and runs the check of its property (or Cxx) against it
P=""; if [ "$1" = -p ]; then P=$2; shift 2; fi
V=/tmp/catchverif; R=/tmp/catchrepo
mkdir -p $V; rsync -a --delete --exclude seeded --exclude .git --exclude build --exclude evidence /verif/ $V/ 2>/dev/null || { cp -a /verif/. $V/; }
[ -d $R ] || { git clone -q /repo $R; }
for id in "$@"; do
  git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
  git -C $R apply /verif/seeded/$id/patch.diff || continue
  p=${P:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  s=$(date +%s)
  (cd $V && LEARNTA_REPO=$R timeout 900 python3 run.py $p quick > /tmp/w/catch-$id.log 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/w/catch-$id.log)"
  git -C $R reset -q --hard
done
