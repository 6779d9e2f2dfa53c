#!/bin/bash
# development aid: apply each planted change to a scratch copy of /repo and run the check of its property against it
# usage: catch.sh [id...]
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
T=$(mktemp -d /tmp/catch.XXXXXX); trap 'rm -rf "$T"' EXIT
for b in $ids; do
  rm -rf "$T/repo"; mkdir "$T/repo"; (cd ${REPO:-/repo} && git archive HEAD openms) | tar x -C "$T/repo"
  (cd "$T/repo" && git init -q . && git apply /verif/seeded/$b/patch.diff) || { echo "$b does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  out=$(VERIF_REPO="$T/repo" VERIF_EVIDENCE_DIR="$T" timeout 900 ./check.sh $p ${TIER:-quick} 2>&1); rc=$?
  echo "$b $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
