#!/bin/bash
# build.sh TARGET_DIR SYSROOT_DIR OUT: prepares the big-endian host; OUT is the script that starts it
set -eu
cd "$(dirname "$0")"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET RUSTC CARGO_TARGET_DIR RUSTUP_TOOLCHAIN || true
target=s390x-unknown-linux-gnu
export CARGO_NET_OFFLINE=true MIRI_SYSROOT="$2"
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks -Zmiri-seed=1"
mkdir -p "$2"
MIRI_NO_STD=1 timeout 300 cargo +nightly miri setup --target $target
cat >"$3.new" <<EOF
#!/bin/bash
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET RUSTC CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
export CARGO_NET_OFFLINE=true MIRI_SYSROOT="$2" MIRIFLAGS="$MIRIFLAGS"
cd "$PWD"
exec cargo +nightly miri run -q --offline --target $target --target-dir "$1"
EOF
chmod +x "$3.new"
# Without a request it ends at once
timeout 300 "$3.new" </dev/null
mv "$3.new" "$3"
