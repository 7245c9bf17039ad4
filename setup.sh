#!/bin/bash
# Builds every flavour of the monitors once, so that checks only rebuild
# what changed
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN
cargo build --offline --release --manifest-path harness/Cargo.toml || exit 1
RUSTFLAGS=-Zsanitizer=address cargo +nightly build --offline --release --manifest-path harness/Cargo.toml --target x86_64-unknown-linux-gnu --target-dir harness/target/asan || exit 1
MON_NO_RLIMIT=1 MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" cargo +nightly miri run --offline --quiet --manifest-path harness/Cargo.toml --target-dir harness/target/miri -- list || exit 1
