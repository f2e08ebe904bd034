#!/bin/bash
# Builds and runs the demonstration against the tree in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d /tmp/lxi-demo.XXXXXX)" || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$here/kit.rs" "$work/src/"
cp "$repo/Cargo.lock" "$work/" 2>/dev/null
cat >"$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
lxi-device = { path = "$repo/device" }
lxi-hislip = { path = "$repo/hislip" }
lxi-socket = { path = "$repo/raw" }
lxi-telnet = { path = "$repo/telnet" }
lxi-vxi11 = { path = "$repo/vxi11" }
async-std = { version = "1.11", features = ["attributes"] }
futures = { version = "0.3", features = ["thread-pool"] }
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
export RUSTFLAGS="-Awarnings"
(cd "$work" && cargo build --offline -q) || exit 3
timeout -k 5 90 "$CARGO_TARGET_DIR/debug/demo"
