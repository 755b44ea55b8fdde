#!/bin/bash
# usage: check.sh <property> [quick|thorough]   or   check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export HOME="${HOME:-/root}"
export PATH="/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$VERIF_ROOT/target" CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
unset RUSTFLAGS
mkdir -p target
if ! cargo build --offline --manifest-path harness/Cargo.toml >target/build.log 2>&1; then
    tail -40 target/build.log >&2
    echo "harness build failed" >&2
    exit 2
fi
if [ "$1" = "--build" ]; then exit 0; fi
if [ "$1" = "--replay" ]; then exec target/debug/rgbcheck --replay "$2"; fi
ID="$1"; shift
case "$1" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
[ "$VERIF_TIER" = thorough ] && VERIF_LIMIT=${VERIF_LIMIT:-0}
exec timeout -k 5 ${VERIF_LIMIT:-860} target/debug/rgbcheck "$ID" "$@" 2> >(grep -v "^Unable to autosave\|^bulletproof dummies" >&2)
