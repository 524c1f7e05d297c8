#!/bin/bash
# trycheck.sh LANE ID...: run the property's check against planted bugs, in copies of the repository and of the committed /verif (development tool)
lane=$1; shift; R=/tmp/tc$lane; mkdir -p $R
[ -d $R/repo ] || git clone -q /repo $R/repo; git -C $R/repo pull -q
[ -d $R/verif ] || git clone -q /verif $R/verif; git -C $R/verif pull -q
for id in "$@"; do
	s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	git -C $R/repo checkout -q -- .; git -C $R/repo apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
	k=""; st=$(date +%s); for q in ${CHECKS:-$p}; do TEXTWOLF_REPO=$R/repo python3 $R/verif/run.py $q >$R/out 2>&1; k="$k $q:rc=$?:$(grep -c '^VIOLATION' $R/out)"; done
	echo "$id [$p] check=$k $(( $(date +%s)-st ))s"
	git -C $R/repo checkout -q -- .
done
