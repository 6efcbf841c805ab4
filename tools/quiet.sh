#!/bin/bash
# quiet.sh NAME SCRIPT.py [PROP...] : apply a behaviour-preserving rewrite in a scratch copy, run its tests and the checks (J at a time); all must be quiet
n=$1; S=$(readlink -f "$2"); shift 2; P=${*:-$(cut -d'|' -f1 /verif/tools/claimed.txt)}
W=/tmp/quiet_$n; rm -rf "$W"; mkdir -p "$W/verif"; cp -a /repo "$W/repo"
cp -a /verif/mc /verif/run.sh /verif/env.sh /verif/known_findings.txt "$W/verif/"
grep -rlE '/repo|/verif' "$W/verif" --include=*.go --include=go.mod --include=*.sh | xargs sed -i "s#/repo\b#$W/repo#g; s#/verif\b#$W/verif#g"
cd "$W/repo" && git checkout -q -- . && python3 "$S" || exit 1
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
if [ -z "$NOTEST" ]; then
/usr/local/bin/go1.23 test -json -vet=off -count=1 -timeout 6m ./... > /tmp/q_$n.d.jsonl 2>/dev/null
USE_BIT_DECOMPOSITION_RANGE_CHECK=true /usr/local/bin/go1.23 test -json -vet=off -count=1 -timeout 6m ./... 2>/dev/null | sed 's/^\({.*"Action":"[a-z-]*","Package":"\)/\1bitdecomp:/' > /tmp/q_$n.b.jsonl
python3 /opt/vp/results.py /tmp/q_$n.json gojson:/tmp/q_$n.d.jsonl gojson:/tmp/q_$n.b.jsonl >/dev/null
python3 -c "
import json
r=json.load(open('/tmp/q_$n.json')); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(r['passed']); print('tests failing:',[x for x in s if x not in p])"
rm -f /tmp/q_$n.d.jsonl /tmp/q_$n.b.jsonl
fi
one() { s=$(date +%s); timeout 900 bash "$W/verif/run.sh" $1 quick >/tmp/quiet_$n.$1.log 2>&1; rc=$?
  echo "$n $1 rc=$rc $(( $(date +%s)-s ))s viol=$(grep -c '^VIOLATION' /tmp/quiet_$n.$1.log)"; }
for p in $P; do one $p & while [ $(jobs -r | wc -l) -ge ${J:-1} ]; do sleep 0.3; done; done; wait
rm -rf "$W"
