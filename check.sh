#!/bin/bash
# check.sh run <property> | check.sh replay <file> | check.sh build
# Builds the shim and the harness from /repo's working tree, then searches (or replays).
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
cd "$HERE" || exit 2
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="${SIM_TARGET:-$HERE/target}" CARGO_TERM_COLOR=never RUST_BACKTRACE=0
mkdir -p "$CARGO_TARGET_DIR" || exit 2
exec 9>"$CARGO_TARGET_DIR/.simlock"
flock 9
log="$CARGO_TARGET_DIR/build.log"
build() {
    gcc -O2 -U_FORTIFY_SOURCE -fno-builtin -Wall -Wno-nonnull-compare -fPIC -shared \
        -o "$CARGO_TARGET_DIR/libsimshim.so" shim/sim_shim.c -ldl >"$log" 2>&1 || return 1
    # Cargo looks at time stamps; look at the contents as well.
    local h
    h="$(cd /repo && { find src build.rs Cargo.toml Cargo.lock tests/json_parsing -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)"
    if [ "$(cat "$CARGO_TARGET_DIR/.repohash" 2>/dev/null)" != "$h" ]; then
        (cd harness && cargo clean --offline -p substrait-explain >/dev/null 2>&1)
        touch harness/src/lib.rs
    fi
    (cd harness && cargo build --offline --locked) >>"$log" 2>&1 || return 1
    echo "$h" >"$CARGO_TARGET_DIR/.repohash"
}
if ! build; then
    echo "harness error: build failed" >&2
    tail -40 "$log" >&2
    exit 2
fi
flock -u 9
export SIM_DIR="$HERE" SIM_SHIM="$CARGO_TARGET_DIR/libsimshim.so"
case "${1:-}" in
build) exit 0 ;;
run|replay) exec env LD_PRELOAD="$SIM_SHIM" "$CARGO_TARGET_DIR/debug/sim" "$@" ;;
*) echo "usage: check.sh build | run <property> | replay <file>" >&2; exit 2 ;;
esac
