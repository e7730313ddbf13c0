#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Rebuilds the area harness of property ID against /repo's working tree and runs its exhaustive exploration.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
ID="$1"; export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS=""
unset RUSTC_WRAPPER
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
case "$ID" in
  A*) BINS="mc_matrix_seq mc_matrix";;   # without and with the `parallel` feature
  G*) BINS="mc_geometry";;
  C*) BINS="mc_calendar";;
  R*) BINS="mc_rendering";;
  W*|P*) BINS="mc_weather";;
  H*) BINS="mc_heat";;
  M*) BINS="mc_model";;
  U05|U06) BINS="mc_cli";;
  I*|U*|L*) BINS="mc_sim";;
  *) echo "unknown property $ID" >&2; exit 2;;
esac
RC=0
for BIN in $BINS; do
  ( cd harness && cargo build --release --offline -q -p "$BIN" ) || { echo "build of $BIN failed" >&2; exit 2; }
  if [ "$BIN" = mc_heat ] || [ "$BIN" = mc_sim ]; then "$CARGO_TARGET_DIR/release/$BIN" "$ID" 2>/dev/null; else "$CARGO_TARGET_DIR/release/$BIN" "$ID"; fi
  R=$?
  if [ $R -eq 134 ] || [ $R -eq 139 ]; then
    # the code under test overflowed its stack or aborted on an input of the explored space
    mkdir -p replays; echo "{\"key\":\"crash\",\"detail\":\"$BIN $ID died with signal $((R-128)) (stack overflow or abort) while exploring\"}" > "replays/$ID-crash.json"
    echo "VIOLATION property=$ID replay=$VERIF_ROOT/replays/$ID-crash.json"
    R=1
  fi
  [ $R -gt $RC ] && RC=$R
  [ $RC -ne 0 ] && break
done
exit $RC
