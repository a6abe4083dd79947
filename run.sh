#!/bin/bash
# run.sh build | ID | replay FILE
# Builds the harness against /repo's working tree and runs the check of one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/build/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
mkdir -p build
build() {
    (cd harness && cargo build --offline --release --quiet) > build/log.$$ 2>&1
    local rc=$?
    [ $rc = 0 ] || { cat build/log.$$ >&2; echo "the harness does not build" >&2; }
    rm -f "$PWD/build/log.$$"
    return $rc
}
build || exit 2
ulimit -c 0
ulimit -v 8000000
case "$1" in
    build) exit 0 ;;
    replay) exec build/target/release/vharness replay "$2" ;;
    *) exec build/target/release/vharness run "$1" ;;
esac
