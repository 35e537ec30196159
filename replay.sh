#!/bin/bash
# usage: replay.sh FILE   re-executes a recorded violation against /repo's current tree
here="$(cd "$(dirname "$0")" && pwd)"
id="$(sed -n 's/^  "property": "\(.*\)",$/\1/p' "$1" | head -1)"
bash "$here/build.sh" "$id" || exit 2
exe="$here/sim/target/debug/simcheck"
case "$id" in C14 | C16) exe="$here/sim/target-plain/plain/simcheck" ;; esac
exec "$exe" replay "$1"
