#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER as described in MANIFEST.json)
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
cd "$here" || exit 2
bash ./build.sh "$id" || exit 2
secs=50
[ "$tier" = thorough ] && secs="${VERIF_SECS:-600}"
[ -n "$VERIF_SECS" ] && secs="$VERIF_SECS"
exe=./sim/target/debug/simcheck
case "$id" in C14 | C16) exe=./sim/target-plain/plain/simcheck ;; esac
exec "$exe" check --root "$here" --property "$id" --tier "$tier" --secs "$secs"
