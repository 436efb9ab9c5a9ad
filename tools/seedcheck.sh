#!/bin/bash
# seedcheck.sh <seed id>...: runs the check of each planted bug's property on a scratch tree with the patch applied
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  D=/tmp/seedcheck-$$; rm -rf "$D"; git clone -q /repo "$D"
  git -C "$D" apply /verif/seeded/$id/patch.diff || { echo "$id: patch"; continue; }
  cd /verif; VERIF_REPO="$D" timeout 900 bin/check "$p" > /tmp/seedcheck.log 2>&1; rc=$?
  echo "$id $p exit=$rc $(grep -h VIOLATION /tmp/seedcheck.log | head -1)"; grep -h 'rejected:' /tmp/seedcheck.log | cut -c1-200
  rm -rf "$D"
done
