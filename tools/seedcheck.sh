#!/bin/bash
# Confirms planted bugs in a scratch copy of /repo (default /tmp/sb): the patch applies and builds, the stable
# tests pass, the demonstration passes without and fails with it.  Usage: seedcheck.sh ID...
SB=${SB:-/tmp/sb}
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $SB checkout -q -- . ; git -C $SB clean -fdq
  cd $SB || exit 2
  bash $d/demo.sh > /tmp/sc.$id.clean 2>&1; c=$?
  if ! git -C $SB apply $d/patch.diff; then echo "$id: PATCH DOES NOT APPLY"; continue; fi
  timeout 600 cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 --exact --skip compliance --skip compliance_loop > /tmp/sc.$id.test 2>&1; t=$?
  n=$(grep -E '^test .*\.\.\. ok$' /tmp/sc.$id.test | wc -l)
  bash $d/demo.sh > /tmp/sc.$id.bug 2>&1; b=$?
  git -C $SB checkout -q -- . ; git -C $SB clean -fdq
  ok=BAD; [ $c = 0 ] && [ $b != 0 ] && [ $b != 2 ] && [ $t = 0 ] && ok=OK
  echo "$id: $ok clean=$c tests=$t($n ok) bug=$b | $(tail -2 /tmp/sc.$id.bug | tr '\n' ' ' | cut -c1-160)"
done
