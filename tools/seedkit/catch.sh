#!/bin/bash
# catch.sh ID...: applies each seeded change to the repository, runs its property's quick check, undoes it
V=$(cd "$(dirname "$0")/../.." && pwd); R=${ZOD_REPO:-/repo}
cd "$V" || exit 2
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  git -C $R apply $V/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; continue; }
  VERIF_SEED=1 VERIF_TIER=${TIER:-quick} timeout 900 bin/check $p > /tmp/catch.$i.log 2>&1; rc=$?
  git -C $R checkout -q -- .
  echo "$i $p rc=$rc $(grep -m1 VIOLATION /tmp/catch.$i.log | cut -c1-200)"
done
