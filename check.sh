#!/bin/bash
# check.sh PROPERTY TIER: builds the harness from /repo's working tree and decides the property.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build failure, timeout, ...)
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
case "$ID" in P25|P26) CRATE=harness_serve; BIN=servecheck;; *) CRATE=harness; BIN=gokocheck;; esac
. "$V/env.sh"
export CARGO_TARGET_DIR="$V/target_$CRATE"
LOG="$V/out/build_$ID.log"; mkdir -p "$V/out"
if ! cargo build --offline --manifest-path "$V/$CRATE/Cargo.toml" >"$LOG" 2>&1; then
  echo "the harness does not build against this tree:" >&2; grep -E "^error" -A5 "$LOG" | head -40 >&2; tail -5 "$LOG" >&2
  exit 2
fi
if [ "$ID" = P16 ]; then
  # the map's own source on scheduled primitives; where it cannot be put on them, real threads remain
  if cargo build --offline --manifest-path "$V/harness_sched/Cargo.toml" >>"$LOG" 2>&1; then BIN=schedcheck
  else echo "note: the scheduled variant does not build against this tree and is left out" >&2; fi
fi
exec "$CARGO_TARGET_DIR/debug/$BIN" check --prop "$ID" --tier "$TIER" --verif "$V"
