#!/bin/bash
# rustc wrapper: only the crate under test gets SanitizerCoverage counters
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    if [ "$a" = actiondb ]; then
      exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Ccodegen-units=1
    fi
    break
  fi
  prev="$a"
done
exec "$rustc" "$@"
