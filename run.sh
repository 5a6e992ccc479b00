#!/bin/bash
# usage: run.sh <property> quick|thorough     decide one property against /repo's working tree
#        run.sh setup                         build everything once
#        run.sh replay <property> <file>      re-run a saved counterexample
# exit 0: held on everything explored; 1: VIOLATION line printed; 3: the check could not decide
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD"
export VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_NET_OFFLINE=true

locate() {
  crate=harness; flags="-Awarnings"
  case "$1" in
    C01|C02|C03|C04|C05|C06|C07) bin=alg ;;
    C08) bin=interval ;;
    C09|C10) bin=trans ;;
    C11|C12|C13) bin=poly ;;
    C14|C15) bin=fact ;;
    C16|C17) bin=util ;;
    C18|C19|C20|C22) crate=harness_int; bin=internal; flags="-Awarnings --cfg algebraics_verif" ;;
    *) echo "unknown property $1" >&2; exit 3 ;;
  esac
}
build() {
  ( cd "$crate" && RUSTFLAGS="$flags" CARGO_TARGET_DIR="$VERIF_ROOT/$crate/target" \
      cargo build --offline --release --quiet --bin "$bin" ) >&2 \
    || { echo "ERROR: $crate/$bin does not build against /repo" >&2; exit 3; }
}
case "$1" in
  setup)
    for p in C01 C08 C09 C11 C14 C16 C18; do
      locate "$p"
      [ -f "$crate/src/bin/$bin.rs" ] && build
    done
    exit 0 ;;
  replay)
    locate "$2"; build
    exec "$crate/target/release/$bin" replay "$3" ;;
esac
locate "$1"
export VERIF_TIER="${2:-quick}"
build
exec "$crate/target/release/$bin" check "$1"
