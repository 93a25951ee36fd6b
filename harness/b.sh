#!/bin/bash
# development build
cd "$(dirname "$0")" && RUSTFLAGS="--cfg uflow_verif --cap-lints allow" cargo build --release --offline --target-dir ../target "$@" 2>&1 | grep -E '^(error|warning: unused)|-->|^  *\||Finished' | head -60
