#!/bin/bash
# Instruments the crate under test and the workload crate (never the simulator runtime or build
# scripts) with SanitizerCoverage: every edge, load and store calls into simrt, which makes each of
# them a scheduling point.
rustc=$1; shift
for a in "$@"; do
    if [ "$prev" = --crate-name ]; then name=$a; fi
    prev=$a
done
case "$name" in
    tagged_box | tbworld)
        exec "$rustc" "$@" -A warnings -A semicolon_in_expressions_from_macros -Cpasses=sancov-module \
            -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
            -Cllvm-args=-sanitizer-coverage-trace-loads \
            -Cllvm-args=-sanitizer-coverage-trace-stores
        ;;
    *) exec "$rustc" "$@" ;;
esac
