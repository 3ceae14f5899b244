#!/bin/bash
# Build everything once, so that the checks only rebuild what depends on /repo.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
build_lock || exit 2
for b in $(sed -n 's/^name = "\(v[a-z]*\)"$/\1/p' harness/Cargo.toml); do
    [ -f harness/src/bin/$b.rs ] && bins="$bins --bin $b"
done
RUSTFLAGS="-C target-cpu=x86-64-v3" quiet_build setup cargo build --release --offline \
    --manifest-path harness/Cargo.toml --target-dir target $bins || exit 1
build_repo || exit 1
[ -f check_asan.sh ] && { bash check_asan.sh build || exit 1; }
exit 0
