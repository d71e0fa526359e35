#!/bin/bash
# Builds both harness crates, so that the checks only rebuild what changed.
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/env.sh"
for c in harness harness_serve; do
  CARGO_TARGET_DIR="$V/target_$c" cargo build --offline --manifest-path "$V/$c/Cargo.toml" || exit 1
done
CARGO_TARGET_DIR="$V/target_harness" cargo build --offline --manifest-path "$V/harness_sched/Cargo.toml" || true
