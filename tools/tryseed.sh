#!/bin/bash
# tryseed.sh ID...: confirm a planted bug (development tool): demo on clean tree, tests and demo with the patch, the property's check
for id in "$@"; do
	s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
	bash $s/demo.sh >/tmp/seed.o 2>&1; c=$?
	git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
	bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.t 2>&1; t=$(tail -1 /tmp/seed.t)
	bash $s/demo.sh >/tmp/seed.o2 2>&1; b=$?
	k=""
	if [ -z "$NOCHECK" ]; then st=$(date +%s); for q in ${CHECKS:-$p}; do python3 /verif/run.py $q >/tmp/seed.k 2>&1; k="$k $q:rc=$?:$(grep -c '^VIOLATION' /tmp/seed.k)"; done; k="$k $(( $(date +%s)-st ))s"; fi
	git checkout -q -- .
	echo "$id [$p] clean=$c patched=$b tests='$t' check=$k"
	[ $c = 0 ] || head -5 /tmp/seed.o
done
