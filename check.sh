#!/bin/bash
# check.sh <property> [<tier>]: builds the harness against /repo's working tree and decides the property.
# VERIF_SEED and, unless given, VERIF_TIER are taken from the environment.
set -u
prop=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export GV_VERIF=$here
export GV_START=$(date +%s)
export CARGO_NET_OFFLINE=true
mkdir -p out

host=x86_64-unknown-linux-gnu
build() { # <target directory> <RUSTFLAGS> <cargo arguments>
    CARGO_TARGET_DIR=$here/build$1 RUSTFLAGS=$2 cargo "${@:3}" --offline --locked
}
harness="--manifest-path harness/Cargo.toml"

hook="--cfg goggles_verif"
if ! build "" "$hook" build $harness >"out/build-$prop.log" 2>&1; then
    # A tree on which the hook does not build is judged without it.
    hook=""
    if ! build "" "" build $harness >"out/build-$prop.log" 2>&1; then
        tail -40 "out/build-$prop.log" >&2
        echo "the harness does not build" >&2
        exit 2
    fi
fi
export GV_HOOK=$hook

if [ "$prop" = M01 ]; then
    # Debug assertions would end a case before the sanitizer sees what goes wrong in it.
    asserts="-Cdebug-assertions=off $hook"
    miri=$here/build/miri-crate
    mkdir -p "$miri"
    sed "s|src/main.rs|$here/harness/src/main.rs|" harness/Cargo.toml >"$miri/Cargo.toml"
    # anymap 0.12.1's hasher reads unaligned, which is UB that is not goggles'; hibitset is only made faster.
    printf '\n[patch.crates-io]\nanymap = { path = "%s/harness/deps/anymap" }\nhibitset = { path = "%s/harness/deps/hibitset" }\n' "$here" "$here" >>"$miri/Cargo.toml"
    cp harness/Cargo.lock "$miri/Cargo.lock"
    export GV_MIRI_MANIFEST=$miri/Cargo.toml GV_MIRI_TARGET=$here/build/miri GV_MIRI_RUSTFLAGS=$hook

    asan() {
        build /asan "-Zsanitizer=address $asserts" +nightly build --target $host $harness
    }
    tsan() {
        build /tsan "-Zsanitizer=thread $asserts" +nightly build -Zbuild-std --target $host $harness
    }
    msan() {
        build /msan "-Zsanitizer=memory -Zsanitizer-memory-track-origins $asserts" \
            +nightly build -Zbuild-std --target $host $harness
    }
    miri() {
        cargo +nightly miri setup --offline &&
            CARGO_TARGET_DIR=$GV_MIRI_TARGET RUSTFLAGS=$hook MIRIFLAGS="-Zmiri-disable-isolation" \
                cargo +nightly miri run -q --offline --manifest-path "$GV_MIRI_MANIFEST" -- list
    }
    kinds="asan tsan miri"
    [ "$VERIF_TIER" = thorough ] && kinds="$kinds msan"
    for k in $kinds; do
        $k >"out/build-$k.log" 2>&1 &
        pids="${pids:-} $k:$!"
    done
    for p in $pids; do
        if ! wait "${p#*:}"; then
            tail -40 "out/build-${p%:*}.log" >&2
            echo "the harness does not build for ${p%:*}" >&2
            exit 2
        fi
    done
    export GV_ASAN_BIN=$here/build/asan/$host/debug/gv GV_TSAN_BIN=$here/build/tsan/$host/debug/gv \
        GV_MSAN_BIN=$here/build/msan/$host/debug/gv
fi
ulimit -c 0
exec build/debug/gv run "$prop"
