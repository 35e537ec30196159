#!/bin/bash
# RUSTC_WRAPPER: instruments only the crates under test with edge/load/store callbacks.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  jsonpath_rfc9535*)
    exec "$rustc" "$@" -Zshare-generics=no -Cpasses=sancov-module \
      -Cunsafe-allow-abi-mismatch=sanitizer -Zsanitizer=thread -Zexternal-clangrt \
      -Cllvm-args=-tsan-instrument-memory-accesses=0 \
      -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
      -Cllvm-args=-tsan-instrument-memintrinsics=0 \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-pc-table \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  simcheck)
    # its own copies of generic functions: the instrumented ones would call back into it
    exec "$rustc" "$@" -Zshare-generics=no -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$rustc" "$@"
