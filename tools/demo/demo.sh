#!/bin/bash
# Builds main.rs (beside this script) against the plonky tree in the current directory and runs it.
# Exit 0: the property held; anything else: it did not (or the program did not build).
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$REPO" || exit 99
W=/tmp/vp-demo-@ID@
mkdir -p $W/src
trap 'rm -rf /tmp/vp-demo-@ID@' EXIT
cp "$HERE/main.rs" $W/src/main.rs
cp /opt/vp/Cargo.lock $W/Cargo.lock
cat > $W/Cargo.toml <<T
[package]
name = "vpdemo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
plonky = { path = "$REPO" }
plookup = { path = "$REPO/plookup" }
rand = "0.7.3"
rayon = "1.3.0"
num = "0.3.0"
anyhow = "1.0.31"
serde_cbor = "0.11.1"
T
export CARGO_TARGET_DIR=$REPO/target
cd $W || exit 99
cargo build --offline >$W/build.log 2>&1 || { tail -30 $W/build.log; exit 98; }
timeout 120 $REPO/target/debug/vpdemo
