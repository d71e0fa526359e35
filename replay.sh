#!/bin/bash
# replay.sh FILE: runs one recorded case against /repo's working tree.
V="$(cd "$(dirname "$0")" && pwd)"
FILE="$(realpath "$1")"
ID=$(grep -o '"property": *"[A-Z0-9]*"' "$FILE" | grep -o 'P[0-9]*')
case "$ID" in P25|P26) CRATE=harness_serve; BIN=servecheck;; *) CRATE=harness; BIN=gokocheck;; esac
. "$V/env.sh"
export CARGO_TARGET_DIR="$V/target_$CRATE"
cargo build --offline --manifest-path "$V/$CRATE/Cargo.toml" >/dev/null 2>&1 || { echo "build failed" >&2; exit 2; }
[ "$ID" = P16 ] && cargo build --offline --manifest-path "$V/harness_sched/Cargo.toml" >/dev/null 2>&1 && BIN=schedcheck
exec "$CARGO_TARGET_DIR/debug/$BIN" replay "$FILE"
