#!/bin/bash
# Builds demo.rs against the halo crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here"/*.rs "$w/src/"
mv "$w/src/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
halo = { path = "$repo" }
subtle = "*"
rand_core = { version = "0.5", features = ["std"] }
[profile.dev]
opt-level = 1
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTC_WRAPPER=
cd "$w" && RUSTFLAGS=-Awarnings timeout 280 cargo +stable run --offline -q
