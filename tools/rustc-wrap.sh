#!/bin/bash
# RUSTC_WRAPPER: compiles the library under test with edge instrumentation (see harness/src/cov.rs).
for a in "$@"; do
  if [ "$p" = --crate-name ] && [ "$a" = netcdf3 ]; then
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
  fi
  p="$a"
done
exec "$@"
