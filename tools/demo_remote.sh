#!/bin/bash
# Builds demo.rs (beside this script) against the kameo tree in the current directory and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$dir/Cargo.lock"; fi
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
kameo = { path = "$repo", features = ["remote"] }
tokio = { version = "1", features = ["macros", "rt", "rt-multi-thread", "sync", "time", "io-std", "io-util", "process"] }
futures = "0.3"
serde = { version = "1", features = ["derive"] }
libp2p = { version = "*", features = ["macros", "tokio", "quic", "request-response", "kad", "mdns"] }
[profile.dev]
debug = 0
incremental = false
[workspace]
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
unset RUSTFLAGS RUSTC_WRAPPER
cargo build -q --offline --manifest-path "$dir/Cargo.toml"
timeout 100 "$dir/target/debug/demo"
