#!/bin/bash
# tools/trial.sh [ID...]: runs the quick check of each planted bug's property against a scratch copy with the bug applied.
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
for id; do
	p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
	w=$(mktemp -d /tmp/trial.XXXXXX); cp -a /repo "$w/repo"
	git -C "$w/repo" apply "$here/seeded/$id/patch.diff" || echo "$id: patch does not apply"
	t0=$(date +%s)
	VERIF_REPO="$w/repo" VERIF_SEED=1 timeout 900 "$here/bin/check" "${PROP:-$p}" "${TIER:-quick}" > "$w/out" 2>&1; rc=$?
	echo "$id ${PROP:-$p} rc=$rc $(($(date +%s)-t0))s $(grep -m1 '^VIOLATION' "$w/out" || grep -v '^KNOWN' "$w/out" | tail -1 | cut -c1-200)"
	rm -rf -- "$w"
done
