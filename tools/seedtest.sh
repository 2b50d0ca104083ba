#!/bin/bash
# seedtest.sh ID...: applies each planted change to /repo, runs the unedited tests (unless NOTEST=1) and all checks of PROPS (default: the
# property of the change), then restores /repo.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  t=skipped
  if [ -z "${NOTEST:-}" ]; then t=$(bash /verif/tools/repo_test.sh 2>&1 | tail -2 | tr '\n' ' '); fi
  r=""
  for p in ${PROPS:-$prop}; do
    o=$(python3 /verif/check.py "$p" 2>&1); c=$?
    r="$r $p=$c[$(echo "$o" | grep -m1 violated | cut -c1-110)]"
    [ $c -gt 1 ] && echo "$o" | tail -20
  done
  git -C /repo checkout -- .
  echo "$id tests: $t checks:$r"
done
