#!/bin/bash
# replay.sh FILE: run the case of a replay file against /repo's working tree, with a description of it.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR=$PWD
f=$(readlink -f "$1") || exit 2
id=$(sed -n 's/^{"property":"\(C[0-9]*\)".*/\1/p' "$f")
. ./env.sh
build_lock || exit 2
case $id in
  C28|C01|C02|C03|C04|C05|C06|C07|C10|C17|C18|C19|C23|C29|C30|C31|C32|C33|C34|C35) bin=vcore ;;
  C08|C09|C16|C20|C21|C22|C25) bin=vparts ;;
  C11|C12|C13|C14|C15) bin=vlow ;;
  C24) bin=vffi ;;
  C26) bin=vext; build_repo || exit 2 ;;
  C27) bin=vext; build_repo && build_python || exit 2 ;;
  *) echo "unknown property '$id' in $f" >&2; exit 2 ;;
esac
case $(basename "$f") in
  C28-*) # found on the sanitised build: the same generator's case there
    VERIF_C28_LOCKED=1 bash ./check_asan.sh build || exit 2
    flock -u 9
    export ASAN_OPTIONS=exitcode=86:detect_leaks=0:allocator_may_return_null=1 VERIF_AS=C28 VERIF_NOLIMIT=1 VERIF_CRASH_ONLY=1
    exec target/asan/x86_64-unknown-linux-gnu/asan/$bin replay "$f" ;;
esac
build_harness $bin || exit 2
flock -u 9
exec target/release/$bin replay "$f"
