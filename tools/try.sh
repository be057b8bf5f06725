#!/bin/bash
# try.sh ID...: run the property's check against the planted bug in /repo and undo it
for ID in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 2
VERIF_SEED=${SEED:-1} /verif/check $P quick > /tmp/try_$ID.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$ID $P rc=$rc $(grep -a VIOLATION /tmp/try_$ID.log | head -1)"
done
