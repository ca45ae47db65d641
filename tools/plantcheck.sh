#!/bin/bash
# plantcheck.sh ID...: run the check of each planted change against a scratch copy of /repo carrying it
R=/tmp/plantrepo; rm -rf /tmp/plantrepo; mkdir -p $R; git -C /repo archive HEAD | tar x -C $R
[ -d /repo/_build ] && true
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  props="$p $ALSO"
  git -C $R init -q 2>/dev/null; (cd $R && patch -s -p1 < /verif/seeded/$id/patch.diff) || { echo "$id does not apply"; continue; }
  for q in $props; do
    t0=$SECONDS; out=$(cd /verif && VERIF_REPO=$R VERIF_BUILD=/tmp/vb2 VERIF_NOEVIDENCE=1 timeout 900 python3 run.py $q 2>&1); rc=$?
    echo "$id $q rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -A1 VIOLATION | head -2 | tail -1 | cut -c1-200)$( [ $rc = 2 ] && echo "$out" | tail -5)"
  done
  (cd $R && patch -s -R -p1 < /verif/seeded/$id/patch.diff)
done
rm -rf /tmp/plantrepo
