#!/bin/bash
# Builds main.rs (beside this script) against the av1enc library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
[dependencies]
av1enc = { path = "$repo" }
[workspace]
T
cd "$d" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTFLAGS="--cfg av1enc_verif -Awarnings"
timeout 240 cargo run --offline --quiet --target-dir "$d/target"
