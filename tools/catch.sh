#!/bin/bash
# catch.sh id[:PROP]... : run a property's quick check against a planted bug in scratch copies of /repo and /verif
one() {
  x=$1; i=${x%%:*}; p=${x#*:}
  [ "$p" = "$x" ] && p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  W=/tmp/catch_$i.$p; rm -rf "$W"; mkdir -p "$W/verif"; cp -a /repo "$W/repo"
  cp -a /verif/mc /verif/run.sh /verif/env.sh /verif/known_findings.txt "$W/verif/"
  grep -rlE '/repo|/verif' "$W/verif" --include=*.go --include=go.mod --include=*.sh | xargs sed -i "s#/repo\b#$W/repo#g; s#/verif\b#$W/verif#g"
  (cd "$W/repo" && git checkout -q -- . && { [ "$i" = none ] || git apply /verif/seeded/$i/patch.diff; }) || { echo "$i: no apply"; rm -rf "$W"; return; }
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash "$W/verif/run.sh" $p quick >/tmp/catch_$i.$p.log 2>&1; rc=$?
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/catch_$i.$p.log)"
  rm -rf "$W"
}
for x in "$@"; do one "$x" & while [ $(jobs -r | wc -l) -ge ${J:-2} ]; do sleep 0.3; done; done; wait
