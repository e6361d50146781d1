#!/bin/bash
# Build the simulator (and, where needed, the converter and the system call
# shim) from /repo's working tree and run the check of one property.
#   check.sh ID            VERIF_SEED / VERIF_TIER select seed and depth
#   check.sh --build       only build
#   check.sh --replay FILE replay a recorded violation
set -u
cd "$(dirname "$0")" || exit 2
export SIM_HOME="$PWD"
export CARGO_NET_OFFLINE=true
mkdir -p target evidence
log="$PWD/target/build-$$.log"

build_sim() {
    cargo build --release --offline --manifest-path sim/Cargo.toml --target-dir target >"$log" 2>&1 || {
        cat "$log"; echo "build of the simulator failed"; exit 2; }
}
build_cli() {
    CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
        cargo build --release --offline --manifest-path /repo/Cargo.toml -p lumberjack-utils \
        --target-dir target/cli >"$log" 2>&1 || {
        cat "$log"; echo "build of the converter failed"; exit 2; }
    gcc -O1 -shared -fPIC -o target/shim.so shim/shim.c -ldl >"$log" 2>&1 || {
        cat "$log"; echo "build of the shim failed"; exit 2; }
    export SIM_CLI="$PWD/target/cli/release/lumberjack-conversion"
    export SIM_SHIM="$PWD/target/shim.so"
}

case "${1:-}" in
    --build) build_sim; build_cli; rm -f "$log"; exit 0 ;;
    --replay) build_sim; build_cli; rm -f "$log"; exec target/release/sim replay "$2" ;;
    C*|G01|G03) build_sim; build_cli ;;
    ?*) build_sim ;;
    *) echo "usage: check.sh ID"; exit 2 ;;
esac
rm -f "$log"
exec target/release/sim check "$1"
