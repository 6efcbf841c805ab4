#!/bin/bash
# mut.sh NAME PROP[,PROP] 'command edited in scratch repo' : apply an ad-hoc edit in a scratch copy and run quick checks against it
n=$1; W=/tmp/mut_$n; rm -rf "$W"; mkdir -p "$W/verif"; cp -a /repo "$W/repo"
cp -a /verif/mc /verif/run.sh /verif/env.sh /verif/known_findings.txt "$W/verif/"
grep -rlE '/repo|/verif' "$W/verif" --include=*.go --include=go.mod --include=*.sh | xargs sed -i "s#/repo\b#$W/repo#g; s#/verif\b#$W/verif#g"
(cd "$W/repo" && git checkout -q -- . && eval "$3" && git diff --stat | tail -1) || { echo "$n: edit failed"; rm -rf "$W"; exit 1; }
for p in ${2//,/ }; do
  s=$(date +%s); timeout 900 bash "$W/verif/run.sh" $p quick >/tmp/mut_$n.$p.log 2>&1; rc=$?
  echo "$n $p rc=$rc $(( $(date +%s)-s ))s viol=$(grep -c '^VIOLATION' /tmp/mut_$n.$p.log)"
done
rm -rf "$W"
