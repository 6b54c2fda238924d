#!/bin/bash
# RUSTC_WRAPPER of the coverage-guided build: instruments the library under test, and only that. The instrumentation
# goes in before the optimizer, which would merge the conditions it is to observe.
rustc="$1"
shift
prev=
for a in "$@"; do
    if [ "$prev" = --crate-name ] && [ "$a" = libgoldilocks ]; then
        exec "$rustc" "$@" -Ccodegen-units=1 -Cno-prepopulate-passes \
            "-Cpasses=function(sroa),cgscc(inline),function(sroa,early-cse),sancov-module,default<O3>" \
            -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
            -Cllvm-args=-sanitizer-coverage-trace-compares
    fi
    prev="$a"
done
exec "$rustc" "$@"
