#!/bin/bash
# Run main.rs (beside this file) against the repository in the current folder.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH=/root/.cargo/bin:$PATH HOME=/root CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src" "$W/scratch"
cp "$D/main.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
subtile = { path = "$R" }
image = { version = "0.25", default-features = false, features = ["png"] }
log = "0.4"
[workspace]
T
cd "$W"
CARGO_TARGET_DIR="$W/target" cargo build --offline -q
cd "$W/scratch"
timeout 60 "$W/target/debug/demo"
