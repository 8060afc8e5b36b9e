#!/bin/bash
# Builds the harness against /repo's current tree and runs it:
#   run.sh build | run.sh check ID [quick|thorough] | run.sh replay FILE
set -u
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
ROOT="$(cd .. && pwd)"
# cargo goes by modification times: when the sources changed, forget what was built from them, so
# that files put back with old times are rebuilt too
sum=$(cd /repo && { cat Cargo.toml; find src -type f | LC_ALL=C sort | xargs sha1sum; } | sha1sum | cut -c1-40)
build() { # $1: variant
    local log="$PWD/target/build-$1.log" dir="$PWD/target"
    mkdir -p "$PWD/target"
    [ "$1" = default ] || dir="$PWD/target/$1"
    if [ "$(cat "$dir/repo.sum" 2>/dev/null)" != "$sum" ]; then
        mkdir -p "$dir"
        find "$dir/release/.fingerprint" -maxdepth 1 -name 'gif-*' -exec rm -r {} + 2>/dev/null
    fi
    if [ "$1" = default ]; then
        cargo build --release --offline >"$log" 2>&1
    elif [ "$1" = plain ]; then
        # as users build it: without debug assertions and overflow checks
        CARGO_TARGET_DIR="$dir" CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false cargo build --release --offline >"$log" 2>&1
    else
        CARGO_TARGET_DIR="$dir" cargo build --release --offline --no-default-features >"$log" 2>&1
    fi || { cat "$log" >&2; echo "gifmc: build failed ($1)" >&2; exit 2; }
    echo "$sum" > "$dir/repo.sum"
}
BIN="$PWD/target/release/gifmc"
BIN2="$PWD/target/noraii/release/gifmc"
BIN3="$PWD/target/plain/release/gifmc"
case "${1:-}" in
build) build default; build noraii ;;
check)
    id="$2"; tier="${3:-${VERIF_TIER:-quick}}"
    shift; shift; shift
    build default
    if [ "$id" = C20 ]; then
        build noraii
        "$BIN2" check "$id" --tier "$tier" --root "$ROOT" --label -noraii --counts-out "$PWD/target/c20-noraii.txt" "$@" || exit $?
        exec "$BIN" check "$id" --tier "$tier" --root "$ROOT" --merge "$PWD/target/c20-noraii.txt" "$@"
    fi
    # the explorations of the quick tier once more without debug assertions: always in thorough runs,
    # in quick runs for one property of the decoder and one of the encoder
    case "$tier-$id" in thorough-*|quick-C04|quick-C18)
        build plain
        "$BIN3" check "$id" --tier quick --root "$ROOT" --label -plain --counts-out "$PWD/target/$id-plain.txt" "$@" || exit $?
        exec "$BIN" check "$id" --tier "$tier" --root "$ROOT" --merge "$PWD/target/$id-plain.txt" "$@" ;;
    esac
    exec "$BIN" check "$id" --tier "$tier" --root "$ROOT" "$@" ;;
replay)
    if grep -q '^variant: no raii' "$2"; then build noraii; exec "$BIN2" replay "$2"; fi
    if grep -q '^variant: no debug' "$2"; then build plain; exec "$BIN3" replay "$2"; fi
    build default
    exec "$BIN" replay "$2" ;;
*) echo "usage: run.sh build | check ID [quick|thorough] | replay FILE" >&2; exit 2 ;;
esac
