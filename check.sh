#!/bin/bash
# check.sh ID [quick|thorough]: build the harness against /repo's working tree and run one property.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR=$PWD
id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
. ./env.sh
build_lock || exit 2
case $id in
  C01|C02|C03|C04|C05|C06|C07|C10|C17|C18|C19|C23|C29|C30|C31|C32|C33|C34|C35) bin=vcore ;;
  C08|C09|C16|C20|C21|C22|C25) bin=vparts ;;
  C11|C12|C13|C14|C15) bin=vlow ;;
  C24) bin=vffi ;;
  C26|C27) bin=vext ;;
  C28) export VERIF_C28_LOCKED=1; exec bash ./check_asan.sh ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
build_harness $bin || exit 2
case $id in
  C26) build_repo || exit 2 ;;
  C27) build_repo && build_python || exit 2 ;;
esac
flock -u 9
exec target/release/$bin run "$id"
