#!/bin/bash
# Run the check of every (or the named) planted bug against a patched scratch copy of /repo; prints CAUGHT or MISSED.
cd "$(dirname "$0")/.." || exit 2
t=$(mktemp -d /tmp/seeded.XXXXXX); trap 'rm -rf "$t"' EXIT
for d in ${@:-seeded/*}; do
  d=seeded/$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf "$t/r"; mkdir "$t/r"; git -C /repo archive HEAD | tar -x -C "$t/r"
  (cd "$t/r" && patch -s -p1 < /verif/$d/patch.diff) || { echo "$(basename $d) $p PATCH DOES NOT APPLY"; continue; }
  out=$(SV_REPO=$t/r timeout 900 python3 check.py $p --tier ${TIER:-quick} 2>&1); rc=$?
  case $rc in 1) echo "$(basename $d) $p CAUGHT";; *) echo "$(basename $d) $p MISSED rc=$rc $(echo "$out" | tail -1)";; esac
done
