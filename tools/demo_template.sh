#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
work="$(mktemp -d)" || exit 2
trap 'rm -rf "${work:?}"' EXIT
mkdir "$work/src" && cp "$here"/*.rs "$work/src/" && cp "$repo/Cargo.lock" "$work/"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rgb-std = { path = "$repo", features = ["all"] }
rgb-invoice = { path = "$repo/invoice", features = ["serde"] }
rgb-core = { version = "0.11.0-beta.9", features = ["stl"] }
bp-core = { version = "0.11.0-beta.9", features = ["stl"] }
bp-invoice = "0.11.0-beta.9.1"
commit_verify = { version = "0.11.0-beta.9", features = ["stl"] }
strict_encoding = "2.7.0"
strict_types = "2.7.2"
amplify = "4.7.0"
aluvm = "0.11.0-beta.9"
nonasync = "0.1.0"
chrono = "0.4.38"
indexmap = "2.4.0"
T
cd "$work" || exit 2
CARGO_TARGET_DIR="$repo/target/demo" cargo build --offline --quiet || exit 3
timeout 120 "$repo/target/demo/debug/demo"
