#!/bin/bash
# bash /verif/run.sh <property> quick|thorough : rebuilds the checker from /repo's
# working tree and runs the exploration of one property.
cd "$(dirname "$0")" || exit 2
. ./env.sh
unset USE_BIT_DECOMPOSITION_RANGE_CHECK
OUT=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 2
trap 'rm -rf "$OUT"' EXIT
fail() {
  cat "$OUT/build.log" >&2
  echo "build of the checker against /repo failed" >&2
  exit 2
}
(cd mc && $GO build -o "$OUT/mc" .) 2>"$OUT/build.log" || fail
if [ "$1" = C26 ] || [ "$1" = C31 ]; then
  # interleavings: package sync of the code under test replaced, race detector on
  "$OUT/mc" overlay "$OUT" >"$OUT/build.log" 2>&1 || fail
  mv "$OUT/mc" "$OUT/mcplain"; export MC_PLAIN="$OUT/mcplain"
  (cd mc && $GO build -race -overlay "$OUT/overlay.json" -o "$OUT/mc" .) 2>"$OUT/build.log" || fail
  export MC_RACELOG="$OUT/race" GORACE="halt_on_error=0 exitcode=0 log_path=$OUT/race history_size=4"
fi
if [ "$1" = C30 ]; then
  # orders the language leaves open: map iteration and go statements of the code under test replaced
  "$OUT/mc" nondet-overlay "$OUT" >"$OUT/build.log" 2>&1 || fail
  (cd mc && $GO build -overlay "$OUT/overlay.json" -o "$OUT/mc.nd" .) 2>"$OUT/build.log" && mv "$OUT/mc.nd" "$OUT/mc" ||
    echo "orders are not controlled: the rewritten code does not build" >&2
fi
if [ "$1" = C32 ]; then
  # the command-line tool, with a small statement as the packaged circuit
  "$OUT/mc" bench-overlay "$OUT" >"$OUT/build.log" 2>&1 || fail
  (cd /repo && $GO build -overlay "$OUT/bench.json" -o "$OUT/bench" .) 2>"$OUT/build.log" || fail
  export MC_BENCH="$OUT/bench"
fi
"$OUT/mc" "$1" "${2:-quick}"
