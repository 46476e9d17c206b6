#!/bin/bash
# build.sh TARGET_DIR OUT: builds the program of the 32-bit host
set -eu
cd "$(dirname "$0")"
export RUSTC_BOOTSTRAP=1
cargo build --release --offline --target-dir "$1" --target x86_64-unknown-linux-gnux32 \
    -Zbuild-std=core,alloc -Zbuild-std-features=compiler-builtins-mem
# Where ../src/host32.rs expects and provides things
T=0x1f000000
defs=()
i=0
for n in h_alloc h_free h_realloc h_panic h_write h_flush h_error h_row h_done h_memory h_guards \
    __sanitizer_cov_trace_pc_guard; do
    defs+=("--defsym=$n=$((T + 16 * i))")
    i=$((i + 1))
done
defs+=("--defsym=__sanitizer_cov_trace_pc_guard_init=$((T + 16 * 10))")
ld -m elf32_x86_64 -static -z noexecstack -e g_entry -u g_entry -Ttext-segment=0x20000000 --gc-sections \
    "${defs[@]}" -o "$2.new" "$1/x86_64-unknown-linux-gnux32/release/libhost32.a"
mv "$2.new" "$2"
