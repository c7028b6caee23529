#!/bin/bash
# trybugs.sh [ID...]: run the check of each seeded bug's property against a patched copy of /repo
for ID in ${@:-$(ls /verif/seeded)}; do
  S=/verif/seeded/$ID
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  B=$(mktemp -d /tmp/tb-XXXX)
  cp -a /repo/. $B/
  git -C $B checkout -q -- . 
  if ! git -C $B apply $S/patch.diff; then echo "$ID: PATCH FAILS"; rm -rf $B; continue; fi
  O=$(VF_REPO=$B timeout 880 /verif/bin/check $P ${TIER:-quick} 2>&1); rc=$?
  if [ $rc = 1 ] && echo "$O" | grep -q "^VIOLATION property=$P"; then echo "$ID: caught by $P: $(echo "$O" | grep -m1 violated: | cut -c1-150)"; 
  else echo "$ID: MISSED by $P rc=$rc"; echo "$O" | tail -3; fi
  rm -rf $B
done
