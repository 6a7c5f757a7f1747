#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/" || exit 3
mv "$d/src/demo.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mortal = { path = "$repo" }
libc = "0.2"
T
cd "$d" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet 2>"$d/log" || { tail -30 "$d/log"; exit 3; }
timeout -s KILL 200 "$d/target/debug/demo"
