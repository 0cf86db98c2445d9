#!/bin/bash
# Builds every check once (each check also rebuilds itself against /repo's working tree).
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${VERIF_TARGET:-$ROOT/target}"
cd "$ROOT/harness" && cargo build --release --offline --quiet --workspace --bins
