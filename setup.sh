#!/bin/bash
# Build the framework from the committed files, offline, and check the reference model.
cd "$(dirname "$0")" || exit 2
export PV_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
(cd harness && cargo build -q --release --offline --lib --bin pv) && target/release/pv selftest
