#!/bin/bash
# Builds the simulator together with /repo's current working tree (instrumented).
# usage: build.sh [PROPERTY]   (C14 and C16 speak about the stack and use an unoptimised build)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 2
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
profile=dev
target=target
case "$1" in C14 | C16) profile=plain; target=target-plain ;; esac
export CARGO_TARGET_DIR="$here/sim/$target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
mkdir -p "$target"
exec 9>"$target/.build.lock"
flock 9
# never trust time stamps of the code under test: rebuild it whenever its content differs
want="$(cd /repo && find Cargo.toml crates -type f \( -name '*.rs' -o -name '*.pest' -o -name '*.toml' \) -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum; sha256sum < "$here/sim/rustc-wrap.sh")"
if [ "$want" != "$(cat "$target/.repo.hash" 2>/dev/null)" ]; then
  rm -f "$here/sim/$target/.repo.hash"
  cargo clean --offline -q --profile $profile -p simcheck -p jsonpath-rfc9535 -p jsonpath_rfc9535_pest -p jsonpath_rfc9535_pest_recursive \
    -p jsonpath_rfc9535_serde -p jsonpath_rfc9535_iter -p jsonpath_rfc9535_locations -p jsonpath_rfc9535_singular 2>/dev/null
fi
if ! cargo build --offline -q --profile $profile >"$target/build.log" 2>&1; then
  grep -v '^warning' "$target/build.log" | tail -40 >&2
  echo "the build failed" >&2
  exit 2
fi
echo "$want" > "$target/.repo.hash"
