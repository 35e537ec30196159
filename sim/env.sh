export RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=/verif/sim/target
export CARGO_NET_OFFLINE=true
