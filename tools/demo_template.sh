#!/bin/bash
# Builds the program beside this script against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
. /opt/vp/env.sh
cd "$t" || exit 2
mkdir src; cp "$here/demo.rs" src/main.rs
[ -f /opt/vp/Cargo.lock ] && cp /opt/vp/Cargo.lock Cargo.lock
cat > Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
plonky = { path = "$repo" }
plookup = { path = "$repo/plookup" }
num = "0.3.0"
rayon = "1.3.0"
serde = { version = "1.0", features = ["derive"] }
serde_cbor = "0.11.1"
T
export CARGO_TARGET_DIR=$t/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1
cargo build --offline >build.log 2>&1 || { tail -30 build.log; echo "demo build failed"; exit 3; }
timeout 250 target/debug/demo
