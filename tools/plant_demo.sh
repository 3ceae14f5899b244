#!/bin/bash
# Run with the repository as the working directory: 0 if the property held, else nonzero.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src" || exit 3
cp "$here/main.rs" "$dir/src/main.rs" || exit 3
cp "$here/Cargo.lock.txt" "$dir/Cargo.lock" || exit 3
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
bitboost = { path = "$repo" }
[profile.dev]
opt-level = 1
debug = false
EOF
cd "$dir" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target" RUSTFLAGS="-C target-cpu=x86-64-v3 -A warnings" RUSTC_WRAPPER=
cargo build --offline -q > build.log 2>&1 || { cat build.log; exit 4; }
timeout 200 "$dir/target/debug/demo" > run.log 2>&1
rc=$?
tail -n 5 run.log
exit $rc
