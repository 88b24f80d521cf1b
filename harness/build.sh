#!/bin/bash
# Builds the harness against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${HARNESS_TARGET:-$PWD/target}
mkdir -p "$CARGO_TARGET_DIR"
# /repo's sources may be older than the last build (git checkout): never trust mtimes
find "$CARGO_TARGET_DIR" -maxdepth 3 -path '*/.fingerprint/anothertls*' -prune -exec rm -rf {} + 2>/dev/null || true
if RUSTFLAGS="--cfg verif_hooks -Awarnings" cargo build --offline "$@" 2>&1; then
  echo 1 > "$CARGO_TARGET_DIR/hooks"
  exit 0
fi
# the hook may not fit any more; everything else does not need it
find "$CARGO_TARGET_DIR" -maxdepth 3 -path '*/.fingerprint/anothertls*' -prune -exec rm -rf {} + 2>/dev/null || true
RUSTFLAGS="-Awarnings" cargo build --offline "$@" 2>&1 || exit 2
echo 0 > "$CARGO_TARGET_DIR/hooks"
