#!/bin/bash
# plant.sh ID... : confirms planted bugs in a scratch copy of /repo and runs
# the check of their property against that copy.
HERE=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$HERE/seeded/$id
  w=$(mktemp -d /tmp/plant-XXXXXX)
  cp -a /repo "$w/repo"
  ( cd "$w/repo" && git checkout -q -- . 
    export PYTHONPATH=$w/repo PYTHONDONTWRITEBYTECODE=1
    bash "$d/demo.sh" >"$w/demo0" 2>&1; r0=$?
    git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit; }
    git diff --stat | tail -1
    t=$(/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 -W ignore -o "python_files=test_*.py *_test.py tests.py" tests 2>&1 | tail -1)
    bash "$d/demo.sh" >"$w/demo1" 2>&1; r1=$?
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    VERIF_SEED=1 VERIF_TIER=${TIER:-quick} MAXLIKE_REPO=$w/repo timeout 900 /opt/venv/bin/python $HERE/harness/run.py $p >"$w/check" 2>&1; rc=$?
    echo "$id [$p] demo clean=$r0 patched=$r1 | tests: $t | check rc=$rc $(grep -m1 '^  C' "$w/check" | cut -c1-220)"
    [ $r0 = 0 ] || tail -5 "$w/demo0"
    [ $rc = 1 ] || tail -3 "$w/check"
  )
  rm -rf "$w"
done
