#!/bin/bash
# warms the build cache; every check rebuilds from /repo anyway
cd "$(dirname "$0")/mc" || exit 2
. ../env.sh
$GO build -o /dev/null .
T=$(mktemp -d) && $GO build -o "$T/mc" . && "$T/mc" overlay "$T" && $GO build -race -overlay "$T/overlay.json" -o /dev/null .; rm -rf "$T"
$GO build -race -o /dev/null .
