#!/bin/bash
# check.sh ID [quick|thorough]     decides one property on /repo's working tree
# check.sh --replay FILE           runs the case of a replay file again
# exit 0: held on everything explored; 1: VIOLATION; 2: no answer (could not build, harness error)
set -u
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_SEED=${VERIF_SEED:-1}
export CARGO_TARGET_DIR=$root/target CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS VERIF_ONLY VERIF_SLOW VERIF_NOGEN VERIF_CONSTANTS VERIF_GUIDE
# The library and the harnesses report their branches and comparisons to the engine.
export RUSTC_WRAPPER=$root/tools/rustc.sh
unset RUSTC_WORKSPACE_WRAPPER

replay=
if [ "${1:-}" = --replay ]; then
  replay=$(realpath "$2")
  id=$(sed -n 's/^property //p' "$replay" | head -1)
  s=$(sed -n 's/^seed //p' "$replay" | head -1)
  [ -n "$s" ] && export VERIF_SEED=$s
  export VERIF_CONSTANTS="$(sed -n 's/^constants //p' "$replay" | head -1)"
  tier=quick
else
  id=${1:?property}
  tier=${2:-${VERIF_TIER:-quick}}
fi
export VERIF_TIER=$tier
export VERIF_SRC_HASH=$(cd "$VERIF_REPO" && find ssz ssz_derive -name '*.rs' -o -name Cargo.toml | sort | xargs sha256sum | sha256sum | cut -c1-16)

features=
case $id in
  C0[1-7]|C10) crate=codec bin=codec ;;
  C09|C16|C17|C19) crate=codec bin=proto ;;
  C15) crate=unions bin=unions ;;
  C08) crate=derived bin=derived ;;
  C1[1-4]|C18) crate=bits bin=bits ;;
  C20) crate=bits bin=bits features="--features arb" ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac

build() { # level, profile flags
  ([ $1 = 0 ] || export VERIF_NOGEN=$1
   shift
   cd "$root/$crate" && cargo build --offline --quiet --bin $bin $features "$@") >"$log" 2>&1
}

one() { # flags of the profile, directory of its output
  local flags=$1 dir=$2
  log=$(mktemp "${TMPDIR:-/tmp}/verif-build.XXXXXX")
  # Generated definitions that do not compile are C08's to judge; the rest is still decided here.
  local level levels="0 1"
  [ $crate = derived ] && levels="0 names 1 2"
  for level in $levels; do
    if build $level $flags; then break; fi
    [ "$level" = "${levels##* }" ] && level=none
  done
  if [ $level = none ]; then
    tail -n 40 "$log" >&2
    rm -f "$log"
    echo "$id: the harness does not build against $VERIF_REPO" >&2
    return 2
  fi
  [ $level = 0 ] || echo "$id: some definitions do not compile, continuing without them (level $level)"
  rm -f "$log"
  # An endless loop that allocates ends with an allocation failure.
  ulimit -v 20000000
  if [ -n "$replay" ]; then
    "$CARGO_TARGET_DIR/$dir/$bin" "$id" --replay "$replay"
  else
    "$CARGO_TARGET_DIR/$dir/$bin" "$id"
  fi
}

if [ "$tier" = thorough ] && [ -z "$replay" ]; then
  # Without overflow checks first, then other seeds (other generated types), then the deep run.
  VERIF_TIER=quick one --release release || exit $?
  base=$VERIF_SEED
  for k in 1 2 3; do
    VERIF_TIER=quick VERIF_SEED=$((base + 1000 * k)) one "" debug || exit $?
  done
fi
one "" debug
