#!/bin/bash
# Builds demo.rs as a submodule of one of the crate's modules (so that it sees private items), in a scratch copy of the
# current directory, and runs its `run` function. The module is named in demo.mod.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cp -r "$repo/src" "$repo/Cargo.toml" "$w/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/"
m=$(cat "$here/demo.mod")
cp "$here/demo.rs" "$w/src/seed_demo.rs"
[ -f "$here/rec.rs" ] && cp "$here/rec.rs" "$w/src/seed_rec.rs"
f="$w/src/$m.rs"; p=seed_demo.rs; [ -f "$f" ] || { f="$w/src/$m/mod.rs"; }
case "$m" in */*) p=../seed_demo.rs;; esac
printf '\n#[path = "%s"]\npub mod seed_demo;\n' "$p" >> "$f"
printf '\nextern crate self as halo;\npub use crate::%s::seed_demo::run as seed_demo_run;\n' "${m//\//::}" >> "$w/src/lib.rs"
mkdir -p "$w/src/bin"
echo 'fn main() { halo::seed_demo_run() }' > "$w/src/bin/seed_demo.rs"
grep -q '^\[workspace\]' "$w/Cargo.toml" || printf '\n[workspace]\n' >> "$w/Cargo.toml"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTC_WRAPPER= CARGO_PROFILE_DEV_OPT_LEVEL=1
cd "$w" && RUSTFLAGS=-Awarnings timeout 280 cargo +stable run --offline -q --bin seed_demo
