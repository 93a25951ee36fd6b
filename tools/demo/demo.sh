#!/bin/bash
# Exit 0 if the property holds in this scenario, 1 if it is broken. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$here/sim.rs" "$tmp/src/" || exit 2
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
uflow = { path = "$repo" }
[workspace]
[profile.dev]
opt-level = 1
T
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS="--cfg uflow_verif -Awarnings" RUSTC_WRAPPER=
cd "$tmp" && cargo build -q --offline || exit 2
timeout -k 5 200 "$tmp/target/debug/demo"
rc=$?
[ $rc -eq 0 ] && exit 0
echo "exit $rc"
exit 1
