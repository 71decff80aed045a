#!/bin/bash
# tools/tryseed.sh <seed id> [nochk] -- confirms a planted change in a scratch copy and
# runs its property's check against it (development tool; not a registered check).
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id; W=/tmp/seed-$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/clean"; cp -a /repo "$W/bug"
git -C "$W/bug" apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
. /opt/vp/env.sh 2>/dev/null
mkdir -p "$W/demo"; cp "$S"/* "$W/demo/"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
t() { (cd "$W/bug" && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --disable-warnings tests 2>&1 | tail -1); }
tests=$(t)
(cd "$W/clean" && bash "$W/demo/demo.sh" > "$W/demo-clean.log" 2>&1); dc=$?
(cd "$W/bug" && bash "$W/demo/demo.sh" > "$W/demo-bug.log" 2>&1); db=$?
echo "$id [$prop] tests: $tests | demo clean=$dc bug=$db"
if [ "$dc" != 0 ]; then tail -5 "$W/demo-clean.log"; fi
if [ "$2" != nochk ]; then
  s=$(date +%s)
  (cd "$V" && VERIF_REPO="$W/bug" VERIF_EVIDENCE="$W/evidence" bin/check "$prop" > "$W/check.log" 2>&1); rc=$?
  echo "$id [$prop] check exit=$rc ($(( $(date +%s) - s )) s): $(grep -o 'clause=.*' "$W/check.log" | sort | uniq -c | tr '\n' ' ')"
  [ $rc = 2 ] && tail -5 "$W/check.log"
fi
rm -rf "$W/clean" "$W/bug"
