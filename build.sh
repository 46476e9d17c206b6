#!/bin/bash
# build.sh [ID]: builds the simulator around the current working tree of /repo; prints the path of the binary.
# One target directory per content of the sources, so that a stale build can never be used.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET RUSTC CARGO_TARGET_DIR || true
export RUSTFLAGS="--cfg jpeg_encoder_sim"
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
key=$( { rustc -V; echo "$here"; find /repo/src /repo/Cargo.toml /repo/build.rs "$here/sim" \
        -name target -prune -o -type f -print 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum; } | sha256sum | cut -c1-16)
out="$here/sim/target/h-$key"
bin="$out/release/jpsim"
mkdir -p "$here/sim/target"
exec 9>"$here/sim/target/.lock"
flock 9
# The big-endian host takes part in one check only. Where it cannot be prepared it is left out (and reported as such).
be=
if [ "${1:-}" = C09 ] && [ ! -f "$out/.be" ]; then
    mkdir -p "$out/release"
    rm -f "$out/release/be.sh"
    "$here/sim/be/build.sh" "$out/be" "$here/sim/target/miri" "$out/release/be.sh" >"$here/sim/target/be-$key.log" 2>&1 &
    be=$!
fi
if [ ! -f "$out/.done" ] || [ ! -x "$bin" ]; then
    # at most three other builds are kept
    ls -1dt "$here"/sim/target/h-* 2>/dev/null | tail -n +4 | while read -r d; do rm -rf "$d"; done
    # The program of the 32-bit host. Where it cannot be built, that host is left out (and reported as such).
    mkdir -p "$out/release"
    rm -f "$out/release/host32.bin"
    "$here/sim/host32/build.sh" "$out/host32" "$out/release/host32.bin" >"$here/sim/target/host32-$key.log" 2>&1 &
    host32=$!
    cargo build --release --offline --target-dir "$out" >"$here/sim/target/build-$key.log" 2>&1 || {
        echo "the build of the simulator failed:" >&2
        tail -40 "$here/sim/target/build-$key.log" >&2
        exit 3
    }
    rm -f "$here/sim/target/build-$key.log"
    if wait $host32; then
        rm -f "$here/sim/target/host32-$key.log"
    else
        echo "the program of the 32-bit host could not be built:" >&2
        tail -5 "$here/sim/target/host32-$key.log" >&2
    fi
    rm -rf "$out/host32"
    touch "$out/.done"
fi
if [ -n "$be" ]; then
    if ! wait "$be"; then
        echo "the big-endian host could not be prepared:" >&2
        tail -5 "$here/sim/target/be-$key.log" >&2
    fi
    rm -f "$here/sim/target/be-$key.log"
    touch "$out/.be"
fi
touch "$out"
echo "$bin"
