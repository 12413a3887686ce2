#!/bin/bash
# run_seeded.sh [id...]: applies each planted bug to /repo, runs its property's
# quick check, undoes it; prints caught/MISSED.
v=/verif
cd $v/seeded || exit 1
[ $# -gt 0 ] || set -- *
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('$v/seeded/$id/meta.json'))['property'])")
	git -C /repo apply $v/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
	t0=$(date +%s)
	out=$(bash $v/check.sh $p quick 2>&1); rc=$?
	git -C /repo checkout -q -- .
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$id $p caught $(($(date +%s)-t0))s $(grep -o 'class=[a-z-]* run=[0-9]*' <<<"$out" | head -1)"; else echo "$id $p MISSED rc=$rc $(($(date +%s)-t0))s"; fi
done
