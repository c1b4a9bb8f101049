#!/bin/bash
# check.sh ID quick|thorough: rebuild the harness against /repo's working tree, run one check.
# P27 and P29 also explore the library with overflow checks and debug assertions, as development builds have
# them, and P01 also with fused multiply-adds (the library has code of its own for them).
cd "$(dirname "$0")" || exit 2
export PV_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS PV_VARIANT PV_VARIANTS
log=$(mktemp) || exit 2
build() {
  if ! (cd harness && cargo build -q --offline --lib --bin pv "$@") >"$log" 2>&1; then
    tail -40 "$log" >&2; rm -f "$log"; echo "check.sh: the harness does not build" >&2; exit 2
  fi
}
variant() {
  PV_VARIANT=$2 "$3/pv" check "$1" quick || { s=$?; rm -f "$log"; exit $s; }
  export PV_VARIANTS=$2
}
case $1 in
P27|P29)
  build --profile checked
  variant "$1" checked target/checked ;;
P01)
  if grep -qwm1 fma /proc/cpuinfo; then
    RUSTFLAGS="-C target-feature=+fma" build --release --target-dir "$PV_ROOT/target/fma"
    variant "$1" fma target/fma/release
  fi ;;
esac
build --release
rm -f "$log"
exec target/release/pv check "$1" "$2"
