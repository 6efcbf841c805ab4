#!/bin/bash
# chkseeds.sh [nojob] id... : in a scratch copy, confirm that each planted bug builds, passes the stable tests, and that its demo separates
one() {
  i=$1; R=/tmp/cs_$i; rm -rf "$R"; cp -a /repo "$R"; cd "$R" || exit 1
  export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
  bash /verif/seeded/$i/demo.sh >/tmp/cs_$i.clean 2>&1; a=$?
  git apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; rm -rf "$R"; return; }
  /usr/local/bin/go1.23 build ./... || { echo "$i: build fails"; rm -rf "$R"; return; }
  bash /verif/seeded/$i/demo.sh >/tmp/cs_$i.bug 2>&1; b=$?
  if [ -z "$NOTEST" ]; then
  unset USE_BIT_DECOMPOSITION_RANGE_CHECK
  /usr/local/bin/go1.23 test -json -vet=off -count=1 -timeout 6m ./... > /tmp/cs_$i.d.jsonl 2>/dev/null
  USE_BIT_DECOMPOSITION_RANGE_CHECK=true /usr/local/bin/go1.23 test -json -vet=off -count=1 -timeout 6m ./... 2>/dev/null | sed 's/^\({.*"Action":"[a-z-]*","Package":"\)/\1bitdecomp:/' > /tmp/cs_$i.b.jsonl
  python3 /opt/vp/results.py /tmp/cs_$i.json gojson:/tmp/cs_$i.d.jsonl gojson:/tmp/cs_$i.b.jsonl >/dev/null
  t=$(python3 - $i <<'P'
import json,sys
i=sys.argv[1]
r=json.load(open(f'/tmp/cs_{i}.json')); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(r['passed']); m=[x for x in s if x not in p]
print('tests ok' if not m else 'TESTS FAIL '+' '.join(x.split('/')[-1] for x in m[:4]))
P
)
  fi
  echo "$i: demo clean=$a bug=$b $t"
  rm -rf "$R" /tmp/cs_$i.*jsonl
}
for i in "$@"; do one $i & while [ $(jobs -r | wc -l) -ge 3 ]; do sleep 0.5; done; done; wait
