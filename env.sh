# Build environment and steps shared by the check scripts; sourced with the working directory /verif.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUST_BACKTRACE=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
REPO=$(readlink -f ../repo)

build_lock() { mkdir -p target && exec 9>target/.lock && flock 9; }

# cargo judges freshness by modification times, which a copied or restored tree can leave old:
# always rebuild the crate itself.
quiet_build() { # log name, command...
    local log=target/$1.log; shift
    if ! "$@" >"$log" 2>&1; then
        grep -E '^error' -A12 "$log" | head -60 >&2
        echo "error: build failed: $*" >&2
        return 1
    fi
}

build_harness() {
    rm -rf "$PWD"/target/release/.fingerprint/bitboost-*
    RUSTFLAGS="-C target-cpu=x86-64-v3" quiet_build harness cargo build --release --offline \
        --manifest-path harness/Cargo.toml --target-dir target --bin "$1"
}

# the repository's own programs and C library, as its users build them
build_repo() {
    [ -f "$REPO/Cargo.lock" ] || cp repo.Cargo.lock "$REPO/Cargo.lock" # (ignored by git there)
    rm -rf "$PWD"/target/repo/release/.fingerprint/bitboost-*
    RUSTFLAGS="-C target-cpu=x86-64-v3" quiet_build repo cargo build --release --offline \
        --manifest-path "$REPO/Cargo.toml" --target-dir target/repo --lib --bins
}

# the repository's Python package as its setup program installs it
build_python() {
    rm -rf "$PWD/target/pypkg"
    mkdir -p "$PWD/target/pypkg" && cp -r "$REPO/python/bitboost" "$PWD/target/pypkg/bitboost" &&
        cp "$PWD/target/repo/release/libbitboost.so" "$PWD/target/pypkg/bitboost/" &&
        "$PWD/target/repo/release/bitboost_gen_config_csv" "$PWD/target/pypkg/bitboost/bitboost_config.gen.csv"
}
