#!/bin/bash
# try_seed.sh ID... : run the check of each planted bug's property against it (in /repo, undone afterwards).
for id in "$@"; do
  d=/verif/seeded/$id
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(cd /verif && bash check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p "; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$id: $r ($(( $(date +%s)-s )) s) $(echo "$out" | grep -c ^VIOLATION) violations"
done
