#!/bin/bash
# tryseed.sh <id>... : demo on the clean tree and with the patch, then the property's check with the patch.
# Works on /repo itself and undoes the patch.
for s in "$@"; do
d=/verif/seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$NODEMO" ] || { $d/demo.sh >/tmp/demo.out 2>&1; echo "$s clean demo: $?"; }
git -C /repo apply $d/patch.diff || { echo "$s does not apply"; continue; }
[ -n "$NODEMO" ] || { $d/demo.sh >/tmp/demo.out 2>&1; echo "$s patched demo: $? $(tail -1 /tmp/demo.out | cut -c1-150)"; }
(cd /verif && ./run.sh $p >/tmp/check.out 2>&1; echo "$s check $p: $? $(grep -m1 : /tmp/check.out | cut -c1-200)")
git -C /repo checkout -- .
done
