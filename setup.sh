#!/bin/bash
# Builds the framework once from the committed files and /repo (the checks rebuild what depends on
# /repo themselves; this only warms the build caches in /verif/harness/target).
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 1
export CARGO_NET_OFFLINE=true
mkdir -p evidence
t="$here/harness/target"
m="--manifest-path $here/harness/Cargo.toml"
triple=x86_64-unknown-linux-gnu
cargo build --offline -q --release $m --target-dir "$t" || exit 1
cargo build --offline -q --release --manifest-path "$here/noimg/Cargo.toml" --target-dir "$t/noimg" || exit 1
RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" cargo +nightly build --offline -q --release $m \
    --target $triple --target-dir "$t/asan" || exit 1
RUSTFLAGS="-Zsanitizer=thread" cargo +nightly build --offline -q --release -Zbuild-std $m \
    --target $triple --target-dir "$t/tsan" || exit 1
RUSTFLAGS="-Zsanitizer=memory -Cforce-frame-pointers=yes" cargo +nightly build --offline -q --release -Zbuild-std $m \
    --target $triple --target-dir "$t/msan" || exit 1
MIRIFLAGS="-Zmiri-disable-isolation" cargo +nightly miri run --offline -q $m --target-dir "$t/miri" -- list >/dev/null || exit 1
exit 0
