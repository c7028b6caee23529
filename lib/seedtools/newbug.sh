#!/bin/bash
# newbug.sh ID PROPERTY : run with the bug applied in /tmp/bugrepo (a copy of /repo); demo_test.py or demo.py in cwd /tmp/bug/ID
# takes the diff, checks demo on both trees, stores under /verif/seeded/ID
set -e
ID=$1
B=/tmp/bugrepo
S=/verif/seeded/$ID
mkdir -p $S
git -C $B diff > $S/patch.diff
test -s $S/patch.diff
if [ -f $S/demo_test.py ]; then cp /verif/lib/seedtools/runsim.py $S/; 
 printf '#!/bin/sh\nD=$(cd "$(dirname "$0")" && pwd)\nexec python3 "$D/runsim.py"\n' > $S/demo.sh; 
else printf '#!/bin/sh\nD=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"\n' > $S/demo.sh; fi
chmod +x $S/demo.sh
(cd /repo && timeout 300 $S/demo.sh >/tmp/demo.out 2>&1) && echo "demo ok on clean tree" || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/demo.out; }
(cd $B && timeout 300 $S/demo.sh >/tmp/demo.out 2>&1) && echo "DEMO PASSES WITH BUG" || echo "demo fails with bug"
git -C $B checkout -q -- .
