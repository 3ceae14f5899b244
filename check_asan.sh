#!/bin/bash
# check_asan.sh [build]: C28, the generators of the other properties on an AddressSanitizer build.
# Only memory errors count here (sanitizer reports and crashes); wrong results and panics belong to
# the other properties.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR=$PWD
. ./env.sh
tier=${VERIF_TIER:-quick}
bins="vcore vparts vlow vffi"
T=x86_64-unknown-linux-gnu

build() {
    rm -rf "$PWD"/target/asan/$T/asan/.fingerprint/bitboost-*
    RUSTUP_TOOLCHAIN=nightly-$T RUSTFLAGS="-C target-cpu=x86-64-v3 -Zsanitizer=address" \
        quiet_build asan cargo build --profile asan --offline --target $T \
        --manifest-path harness/Cargo.toml --target-dir target/asan $(for b in $bins; do echo --bin $b; done)
}

if [ "$1" = build ]; then build; exit; fi
[ -n "$VERIF_C28_LOCKED" ] || build_lock || exit 2
build || exit 2
flock -u 9

export ASAN_OPTIONS=exitcode=86:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0
export VERIF_AS=C28 VERIF_NOLIMIT=1 VERIF_CRASH_ONLY=1
D=target/run/C28-$$
mkdir -p $D
trap 'rm -rf "$VERIF_DIR/$D"' EXIT
case $tier in
  thorough) k=20 ;;
  *) k=1 ;;
esac
# binary property scale
run_list="vcore C28 1
vcore C01 0.07
vcore C02 0.07
vcore C04 0.07
vcore C17 0.1
vcore C18 0.06
vcore C23 0.09
vcore C19 0.08
vcore C30 0.03
vcore C31 0.1
vparts C08 0.03
vparts C09 0.03
vparts C16 0.05
vparts C22 0.04
vparts C25 0.07
vlow C11 0.16
vlow C12 0.24
vlow C13 0.1
vlow C14 0.1
vlow C15 0.16
vffi C24 0.1"
n=0
while read b id scale; do
    n=$((n+1))
    s=$(awk "BEGIN{print $scale*$k}")
    VERIF_TIER=quick VERIF_SCALE=$s VERIF_EVIDENCE=$D/$id.json target/asan/$T/asan/$b run $id >$D/out 2>$D/err
    rc=$?
    if [ $rc -ne 0 ]; then
        cat $D/out; grep -v '^$' $D/err | head -40 >&2
        python3 tools/merge_c28.py $D $tier
        exit $rc
    fi
    grep '^ok' $D/out | sed "s/property=C28/asan build, generator $id:/"
done <<<"$run_list"
python3 tools/merge_c28.py $D $tier || exit 2
echo "ok property=C28"
