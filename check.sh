#!/bin/bash
# check.sh <Cxx> [quick|thorough] : rebuilds the harness from /repo's working tree and runs one check
cd "$(dirname "$0")" || exit 2
export UV_ROOT="$PWD"
[ -n "$2" ] && export VERIF_TIER="$2"
./build.sh || { echo "ERROR: build failed"; exit 2; }
if [ "$2" = thorough ]; then
    # first the code with debug assertions and overflow checks, then exactly as shipped (wrapping arithmetic)
    ./target/release/uv check "$1" || exit $?
    [ -x ./target/plain/uv ] && [ -n "$UV_PLAIN" ] && UV_PLAIN_RUN=1 ./target/plain/uv check "$1"
    exit $?
fi
exec ./target/release/uv check "$1"
