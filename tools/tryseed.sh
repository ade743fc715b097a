#!/bin/bash
# tools/tryseed.sh ID...: run the property's quick check against planted bugs (development tool)
cd "$(dirname "$0")/.."
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seed-XXXXXX); git clone -q /repo $t/r; git -C $t/r apply $PWD/seeded/$id/patch.diff
  out=$(VT_REPO=$t/r ./check.sh $prop quick 2>&1); rc=$?
  echo "$id $prop rc=$rc $(echo "$out" | grep -m1 clauses) $(echo "$out" | tail -1)"
  rm -rf "$t"
done
