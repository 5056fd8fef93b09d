#!/bin/bash
# check.sh <property> : build from /repo's working tree and run the monitors of one property
# check.sh replay <file> : run the case of a replay file again
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true VH_EVIDENCE="$here/evidence"
mkdir -p "$here/evidence"
target="$here/harness/target"
nobuild() {
    cat "$here/evidence/.build.log" >&2
    echo "check.sh: the harness does not build against /repo" >&2
    exit 3
}
fresh() { # never trust time stamps: rqrr and what uses it is compiled again on every run
    rm -rf "$1"/.fingerprint/rqrr-* "$1"/.fingerprint/vh-* "$1"/.fingerprint/noimg-*
}
log() { "$@" 2>"$here/evidence/.build.log" || nobuild; }
build() {
    fresh "$target/release"
    log cargo build --offline -q --release --manifest-path "$here/harness/Cargo.toml" --target-dir "$target"
}
export VH_NOIMG="$target/noimg/release/noimg"
case "$1" in
C16 | replay)
    fresh "$target/noimg/release"
    log cargo build --offline -q --release --manifest-path "$here/noimg/Cargo.toml" --target-dir "$target/noimg"
    ;;
C18)
    exec bash "$here/memory.sh"
    ;;
esac
build
# a runaway allocation must end the run, not the machine
ulimit -v 20000000
if [ "$1" = replay ]; then
    exec "$target/release/vh" replay "$2"
fi
exec "$target/release/vh" check "$1"
