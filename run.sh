#!/bin/bash
# usage: run.sh build | run.sh <ID> [quick|thorough] | run.sh replay FILE | run.sh list
# Builds the harness against /repo's current working tree and runs one check.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_TARGET_DIR="$VERIF/mc/target" CARGO_INCREMENTAL=0
export MC_ROOT="${MC_ROOT:-$VERIF}"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
BIN="$CARGO_TARGET_DIR/release/mc"

build() {
    local log now stamp
    mkdir -p "$CARGO_TARGET_DIR"
    stamp="$CARGO_TARGET_DIR/tree.sha256"
    exec 9>"$CARGO_TARGET_DIR/lock" && flock 9
    # Content, not modification time, decides whether the crate is recompiled.
    now=$(cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
    now="$now $(cd "$VERIF/mc" && find src fixtures Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    if [ ! -x "$BIN" ] || [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        log="$CARGO_TARGET_DIR/build.log"
        rm -f "$stamp"
        if [ -d "$CARGO_TARGET_DIR/release" ]; then
            (cd "$VERIF/mc" && cargo clean --release --offline -p aseprite-loader -p mc) >/dev/null 2>&1
        fi
        if ! (cd "$VERIF/mc" && cargo build --release --offline --locked) >"$log" 2>&1 &&
            ! (cd "$VERIF/mc" && cargo build --release --offline --locked --no-default-features) >>"$log" 2>&1; then
            cat "$log" >&2
            echo "harness does not build against /repo" >&2
            exit 2
        fi
        printf '%s' "$now" >"$stamp"
    fi
    exec 9>&-
}

# The drivers for a 32-bit platform (C31). Neither its standard library nor its
# dependencies are installed: they are built from the sources of the toolchain
# and from cargo's cache.
build_w32() {
    local log now stamp lib
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$VERIF/mc/target/w32"
    export CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS="-Clink-arg=-zstack-size=16777216"
    export W32_WASM="$CARGO_TARGET_DIR/wasm32-unknown-unknown/release/w32.wasm"
    mkdir -p "$CARGO_TARGET_DIR"
    stamp="$CARGO_TARGET_DIR/tree.sha256"
    log="$CARGO_TARGET_DIR/build.log"
    exec 9>"$CARGO_TARGET_DIR/lock" && flock 9
    now=$(cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
    now="$now $(cd "$VERIF" && find mc/src mc/fixtures w32 -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    if [ ! -e "$W32_WASM" ] || [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        rm -f "$stamp" "$W32_WASM"
        rm -rf "$CARGO_TARGET_DIR/wasm32-unknown-unknown/release/.fingerprint/"{aseprite-loader,w32}-*
        if [ ! -e "$CARGO_TARGET_DIR/vendor.toml" ]; then
            rm -rf "$CARGO_TARGET_DIR/vendor"
            (cd "$VERIF/w32" && cargo vendor --offline --locked "$CARGO_TARGET_DIR/vendor") >"$log" 2>&1 || w32_failed "$log"
            lib=$(rustc --print sysroot)/lib/rustlib/src/rust/library/vendor
            for c in "$lib"/*; do
                [ -e "$CARGO_TARGET_DIR/vendor/${c##*/}" ] || ln -s "$c" "$CARGO_TARGET_DIR/vendor/"
            done
            printf '[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s/vendor"\n' "$CARGO_TARGET_DIR" >"$CARGO_TARGET_DIR/vendor.toml"
        fi
        w32() {
            (cd "$VERIF/w32" && cargo build --release --offline --locked --target wasm32-unknown-unknown \
                -Zbuild-std=std,panic_abort --config "$CARGO_TARGET_DIR/vendor.toml" "$@") >>"$log" 2>&1
        }
        w32 || w32 --no-default-features || w32_failed "$log"
        printf '%s' "$now" >"$stamp"
    fi
    exec 9>&-
}
# The harness and the crate with a counter of the steps taken (C32). With --target the
# flags concern neither build scripts nor procedural macros.
STEPS="$CARGO_TARGET_DIR/steps"
build_steps() {
    local log now stamp bin
    log="$STEPS/build.log"
    stamp="$STEPS/tree.sha256"
    bin="$STEPS/x86_64-unknown-linux-gnu/release/mc"
    mkdir -p "$STEPS"
    exec 9>"$STEPS/lock" && flock 9
    now=$(cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
    now="$now $(cd "$VERIF/mc" && find src fixtures Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    if [ ! -x "$bin" ] || [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        rm -rf "$stamp" "$bin" "$STEPS/x86_64-unknown-linux-gnu/release/.fingerprint/"{aseprite-loader,mc}-*
        steps() {
            (cd "$VERIF/mc" && CARGO_TARGET_DIR="$STEPS" RUSTFLAGS="--cfg mc_steps -Cpasses=sancov-module \
                -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc \
                -Clink-arg=-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset" \
                cargo build --release --offline --locked --target x86_64-unknown-linux-gnu "$@") >>"$log" 2>&1
        }
        : >"$log"
        if ! steps && ! steps --no-default-features; then
            cat "$log" >&2
            echo "harness with step counter does not build against /repo" >&2
            exit 2
        fi
        printf '%s' "$now" >"$stamp"
    fi
    exec 9>&-
    BIN="$bin"
}
w32_failed() {
    cat "$1" >&2
    echo "harness does not build for wasm32 against /repo" >&2
    exit 2
}

case "${1:-}" in
build) build ;;
list) build && exec "$BIN" list ;;
replay)
    if grep -q '"property": "C31"' "$2"; then
        build_w32
        exec node "$VERIF/w32/run.mjs" replay "$2"
    fi
    if grep -q '"property": "C32"' "$2"; then build_steps; else build; fi
    exec "$BIN" replay "$2"
    ;;
C31)
    export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
    build_w32
    exec node "$VERIF/w32/run.mjs" check
    ;;
C32)
    export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
    build_steps
    exec "$BIN" check "$1"
    ;;
C[0-9][0-9]*)
    export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
    build
    exec "$BIN" check "$1"
    ;;
*)
    sed -n 2,3p "$0" >&2
    exit 2
    ;;
esac
