#!/bin/bash
# check.sh <property id> [args...]: rebuilds the check against /repo's working tree and runs it.
# VERIF_SEED and VERIF_TIER come from the environment (or --seed / --tier).
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; shift
BIN="$(echo "$ID" | tr 'A-Z' 'a-z')"
export VERIF_ROOT="$ROOT" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${VERIF_TARGET:-$ROOT/target}"
cd "$ROOT/harness" || exit 2
PKG=checks; case "$ID" in C31|C32) PKG=modelchecks;; esac
if ! cargo build --release --offline --quiet -p "$PKG" --bin "$BIN" 1>&2; then echo "build of the check failed" >&2; exit 2; fi
exec "$CARGO_TARGET_DIR/release/$BIN" "$@"
