#!/bin/bash
# ./tools/seedtest.sh ID...: for each seeded change, the demonstration with and
# without it, the repository's tests and its property's quick check, in /repo.
export PATH=$PATH:/opt/veriftools/go1.27.3/bin HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  bash "$d/demo.sh" > /tmp/seed.base 2>&1; b=$?
  git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash "$d/demo.sh" > /tmp/seed.with 2>&1; w=$?
  t=$(bash /verif/tools/repotest.sh 2>&1 | tail -1)
  c=$(VERIF_SEED=1 /verif/run.sh "$prop" 2>&1); rc=$?
  git checkout -q -- .
  echo "$id [$prop] demo base=$b with=$w; tests: $t; check exit $rc: $(echo "$c" | grep -m1 -E '^case|VIOLATION|race' | cut -c1-200)"
  [ $b = 0 ] || tail -15 /tmp/seed.base
  [ $w != 0 ] || tail -5 /tmp/seed.with
done
