# Sourced by the checks: the toolchain and flags of the harness builds.
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg goko_verif --cap-lints=warn"
