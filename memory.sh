#!/bin/bash
# C18: the same workloads under four dynamic analysers of the real code
#   AddressSanitizer  all streams
#   ThreadSanitizer   the streams with threads (standard library instrumented too)
#   MemorySanitizer   all streams (standard library instrumented too): reads of uninitialised memory
#   Miri              small cases, one per process (undefined behaviour, data races, leaks)
set -u
here=$(cd "$(dirname "$0")" && pwd)
ev="$here/evidence"
t="$here/harness/target"
tier=${VERIF_TIER:-quick}
triple=x86_64-unknown-linux-gnu
mkdir -p "$ev/replay" "$ev/.asan/replay" "$ev/.tsan/replay" "$ev/.msan/replay"
export CARGO_NET_OFFLINE=true
start=$(date +%s)
fail() {
    cat "$ev/.build.log" >&2
    echo "memory.sh: the harness does not build against /repo ($1)" >&2
    exit 3
}
m="--manifest-path $here/harness/Cargo.toml"
for d in asan tsan msan miri; do
    find "$t/$d" -type d \( -name 'rqrr-*' -o -name 'vh-*' \) -path '*/.fingerprint/*' -prune -exec rm -rf {} + 2>/dev/null
done
RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" cargo +nightly build --offline -q --release $m \
    --target $triple --target-dir "$t/asan" 2>"$ev/.build.log" || fail asan
RUSTFLAGS="-Zsanitizer=thread" cargo +nightly build --offline -q --release -Zbuild-std $m \
    --target $triple --target-dir "$t/tsan" 2>"$ev/.build.log" || fail tsan
RUSTFLAGS="-Zsanitizer=memory -Cforce-frame-pointers=yes" cargo +nightly build --offline -q --release -Zbuild-std $m \
    --target $triple --target-dir "$t/msan" 2>"$ev/.build.log" || fail msan
# Miri: build once, then the cases in parallel
export MIRIFLAGS="-Zmiri-disable-isolation"
cargo +nightly miri run --offline -q $m --target-dir "$t/miri" -- list >"$ev/.miri.list" 2>"$ev/.build.log" || fail miri

viol=0
odd=0
run() { # name, options...
    local n=$1
    shift
    env "$@" VH_EVIDENCE="$ev/.$n" "$t/$n/$triple/release/vh" check C18 >"$ev/.$n.out" 2>"$ev/.$n.err"
    local c=$?
    cat "$ev/.$n.err" >&2
    if [ $c = 1 ]; then
        viol=1
        while read -r l; do
            f=${l##*replay=}
            g="$ev/replay/C18-$n-$(basename "$f")"
            {
                cat "$f"
                echo "under: $n"
                grep -vE '^  (max|rate)' "$ev/.$n.err" | tail -80
            } >"$g"
            echo "VIOLATION property=C18 replay=$g"
        done < <(grep '^VIOLATION' "$ev/.$n.out")
    elif [ $c != 0 ]; then
        odd=1
    fi
}
run asan ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1
run tsan VH_STREAM=threads VH_SCALE=$([ "$tier" = thorough ] && echo 0.3 || echo 1) TSAN_OPTIONS=abort_on_error=1:halt_on_error=1
run msan MSAN_OPTIONS=abort_on_error=1

if [ "$tier" = thorough ]; then last=255; else last=23; fi
one() {
    # kind 0 (a whole symbol) is the slow one: fewer of them
    cd "$here" || exit 3
    timeout 1500 cargo +nightly miri run --offline -q $m --target-dir "$t/miri" -- case C18 tiny "$1" \
        >"$ev/.miri.$1.out" 2>&1
    echo "$1 $?" >>"$ev/.miri.rc"
}
export -f one
export here ev t m
rm -f "$ev"/.miri.rc "$ev"/.miri.*.out
{
    for i in $(seq 0 "$last"); do
        # kind 0 of every four is a whole symbol and costs minutes
        if [ $((i % 4)) = 0 ] && { [ "$tier" = quick ] && [ $((i % 16)) != 0 ]; }; then continue; fi
        echo "$i"
    done
} | sort -n -t' ' | awk '{print ($1 % 4 == 0 ? 0 : 1), $1}' | sort -s -n -k1,1 | cut -d' ' -f2 |
    xargs -P 8 -I{} bash -c 'one {}'
ok=0
while read -r i c; do
    if [ "$c" = 0 ]; then
        ok=$((ok + 1))
        continue
    fi
    if [ "$c" = 124 ] || [ "$c" = 3 ]; then
        odd=1
        tail -3 "$ev/.miri.$i.out" >&2
        continue
    fi
    viol=1
    f="$ev/replay/C18-miri-tiny-$i.txt"
    {
        printf 'property=C18\ntier=%s\nseed=%s\nstream=tiny\nidx=%s\nunder: miri\n\n' "$tier" "${VERIF_SEED:-1}" "$i"
        tail -120 "$ev/.miri.$i.out"
    } >"$f"
    tail -20 "$ev/.miri.$i.out" >&2
    echo "VIOLATION property=C18 replay=$f"
done <"$ev/.miri.rc"
python3 - "$ev" "$ok" "$viol" $(($(date +%s) - start)) <<'PY'
import json, sys, os
ev, ok, viol, wall = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
def load(n):
    try:
        return json.load(open(os.path.join(ev, "." + n, "C18.json")))
    except Exception:
        return None
a, t, u = load("asan"), load("tsan"), load("msan")
out = a or t or u or {"property": "C18", "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration", "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}}
c = out["coverage"]
c["under_address_sanitizer"] = a["coverage"]["evaluations"] if a else 0
c["under_thread_sanitizer"] = t["coverage"]["evaluations"] if t else 0
c["under_memory_sanitizer"] = u["coverage"]["evaluations"] if u else 0
c["under_miri"] = ok
c["evaluations"] = c["under_address_sanitizer"] + c["under_thread_sanitizer"] + c["under_memory_sanitizer"] + ok
out["wall_s"] = wall
out["violations"] = viol
json.dump(out, open(os.path.join(ev, "C18.json"), "w"), indent=1)
PY
rm -rf "$ev"/.miri.*.out "$ev/.miri.rc" "$ev/.miri.list" "$ev/.asan" "$ev/.tsan" "$ev/.msan"
[ $viol = 1 ] && exit 1
[ $odd = 1 ] && { echo "inconclusive: an analyser gave no answer" >&2; exit 3; }
echo "C18: $ok cases under Miri, sanitizers quiet" >&2
exit 0
