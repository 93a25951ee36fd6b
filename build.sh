#!/bin/bash
# builds the harness (and with it /repo's current working tree, hooks on)
cd "$(dirname "$0")/harness" || exit 2
export RUSTFLAGS="--cfg uflow_verif --cap-lints allow"
export CARGO_NET_OFFLINE=true
out=$(cargo build --release --offline --locked --target-dir ../target 2>&1) || { echo "$out" | tail -40; exit 1; }
