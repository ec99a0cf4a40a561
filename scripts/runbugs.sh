#!/bin/bash
# runbugs.sh [id...]: apply each planted bug to /repo, run its property's check, undo.
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$i/meta.json")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  rm -f /tmp/runbugs.json; bash /opt/vp/test.sh /tmp/runbugs.json >/dev/null 2>&1
  n=$(python3 -c 'import json; print(len(json.load(open("/tmp/runbugs.json"))["passed"]))')
  out=$(python3 check.py "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p tests=$n rc=$rc $(echo "$out" | grep '^VIOLATION' | sed 's/replay=[^ ]*//') | $(echo "$out" | grep -c '^FAILED') obligations failed"
done
