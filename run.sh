#!/bin/bash
# run.sh C01..C23: builds the explorer against /repo's working tree and decides that property.
# run.sh replay FILE: re-runs the single execution a VIOLATION line points at.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export CARGO_TARGET_DIR="$ROOT/target" GBMC_ROOT="$ROOT" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$ROOT/target"
log="$ROOT/target/build-$$.log"
( cd mc && cargo build -q --release --offline --locked ) >"$log" 2>&1 || { head -c 6000 "$log"; rm -f "$log"; echo "ERROR: the explorer does not build against /repo"; exit 2; }
rm -f "$log"
BIN="$ROOT/target/release/gbmc"
case "$1" in
  replay|list|one) exec "$BIN" "$@" ;;
  build) exit 0 ;;
  *) exec "$BIN" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
