#!/bin/sh
# RUSTC_WRAPPER: compiles the crate under test and the adaptors that instantiate its generics with
# a callback on every edge of the control flow graph (see src/sched.rs). Nothing else is instrumented.
for a in "$@"; do
  case "$a" in
    jpeg_encoder|je_simd|je_nostd|va_std|va_simd|va_nostd|host32)
      exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  esac
done
exec "$@"
