#!/bin/bash
# Builds a small program against the rqrr in the current directory and runs it in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rqrr = { path = "$repo" }
image = { version = "0.24", default-features = false, features = ["png"] }
[profile.release]
opt-level = 2
debug-assertions = true
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS
cd "$d" || exit 2
cargo build --offline -q --release || exit 2
timeout 250 "$d/target/release/demo"
