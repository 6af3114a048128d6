#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TARGET_DIR="$PWD/target" RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
log=$(mktemp)
if ! cargo build --release --offline --manifest-path mc/Cargo.toml >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"; exit 2
fi
rm -f "$log"
[ "$1" = "--build" ] && exit 0
ulimit -v 26000000 2>/dev/null
exec "$CARGO_TARGET_DIR/release/mc" "$1" "${2:-${VERIF_TIER:-quick}}"
