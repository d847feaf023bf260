#!/bin/bash
# tools/catch.sh [SEEDED...]: does the check of its property catch each planted
# bug? Applies it to /repo, runs the check, and undoes it. CHECK=Cxx overrides.
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for s in "${@:-$(ls seeded)}"; do for s in $s; do
	c=${CHECK:-$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")}
	git -C /repo apply "/verif/seeded/$s/patch.diff" || continue
	t=$(date +%s)
	out=$(python3 run.py check "$c" quick 2>&1); rc=$?
	git -C /repo checkout -- .
	echo "$s $c rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -m1 VIOLATION)"
done; done
