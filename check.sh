#!/bin/bash
# check.sh PROPERTY quick|thorough
#
# Builds the monitors against /repo's working tree, and runs one property.
# 0: held on everything explored, 1: violated, 2: could not be decided.
cd "$(dirname "$0")" || exit 2
export MON_HOME=$PWD
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN
log=$(mktemp)
trap 'rm -f "$log" "$log.miri"' EXIT
if ! cargo build --offline --release --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    cat "$log"
    echo "error: the monitors do not build against /repo"
    exit 2
fi
if [ "$1" = P02 ]; then
    # The sanitized builds, both of which need nightly
    (
        export RUSTFLAGS=-Zsanitizer=address
        cargo +nightly build --offline --release --manifest-path harness/Cargo.toml --target x86_64-unknown-linux-gnu --target-dir harness/target/asan
    ) >"$log" 2>&1 &
    asan=$!
    MON_NO_RLIMIT=1 MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" cargo +nightly miri run --offline --quiet --manifest-path harness/Cargo.toml --target-dir harness/target/miri -- list >"$log.miri" 2>&1
    miri=$?
    wait $asan || { cat "$log"; echo "error: no AddressSanitizer build"; exit 2; }
    [ $miri = 0 ] || { cat "$log.miri"; echo "error: no Miri build"; exit 2; }
fi
harness/target/release/mon check "$@"
