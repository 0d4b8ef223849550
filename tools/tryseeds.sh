#!/bin/bash
# tryseeds.sh [ID...]: runs each planted bug's check against a scratch copy with the bug in it.
cd /verif || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo "$w/repo"; cp -a /verif "$w/verif"
  git -C "$w/repo" apply "/verif/seeded/$id/patch.diff"
  s=$(date +%s)
  (cd "$w/verif" && VERIF_SEED=1 VERIF_REPO="$w/repo" timeout 900 bash check.sh $p quick > "/tmp/try.$id.log" 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep '^VIOLATION' /tmp/try.$id.log | head -1 | cut -c1-200)"
  rm -rf "$w"
done
