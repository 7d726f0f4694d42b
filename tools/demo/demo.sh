#!/bin/bash
# Builds the demonstration against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$here/harness.rs" "$t/src/"
cp "$here/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
spdm = { path = "$repo", features = ["crypto-ring"] }
ring = { version = "0.16.20", default-features = false }
rcgen = "0.8.14"
EOF
export SPDM_CONFIG="${DEMO_CONFIG:-$repo/spdm-config-crypto.toml}"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}"
cd "$t" && cargo build --offline --locked --quiet 2> build.log || { cat build.log; exit 3; }
if [ -n "${DEMO_LOCK:-}" ]; then cp Cargo.lock "$DEMO_LOCK"; fi
"$CARGO_TARGET_DIR/debug/demo"
