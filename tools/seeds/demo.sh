#!/bin/bash
# Builds a small program (demo.rs) against the crate in the current directory and runs it.
# Exit 0: the property held; nonzero: it did not. Everything is built in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/crate" "$tmp/demo/src"
cp -r "$repo/src" "$tmp/crate/src"
cat > "$tmp/crate/Cargo.toml" <<'T'
[package]
name = "partial-pretty-printer"
version = "0.9.1"
edition = "2018"
[dependencies]
once_cell = "1"
thiserror = "1"
unicode-width = "0.1"
serde = { version = "1", features = ["derive"], optional = true }
[features]
default = []
profile = []
serialization = ["serde"]
T
cat > "$tmp/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
partial-pretty-printer = { path = "../crate", features = ["serialization"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
T
cp "$here/demo.rs" "$tmp/demo/src/main.rs"
cp "$here/common.rs" "$tmp/demo/src/common.rs"
cd "$tmp/demo" || exit 3
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cargo build --offline --quiet || exit 4
timeout 120 "$tmp/target/debug/demo"
