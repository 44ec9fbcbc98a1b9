#!/bin/bash
# developer helper: trybug.sh ID...  -- runs the check a planted bug belongs to with the bug applied to /repo.
for b in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$b/patch.diff || continue
python3 /verif/check.py $p > /tmp/try.$b.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$b $p rc=$rc $(grep VIOLATION /tmp/try.$b.log | head -2)"
done
