#!/bin/bash
# Builds the library under test with a call in every basic block and around every
# atomic operation: the places where the simulator can interrupt a thread.
rustc="$1"; shift
case " $* " in
*" --crate-name asciidoc_parser "*)
    exec "$rustc" "$@" -C passes="sancov-module function(tsan)" -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-prune-blocks=0 ;;
esac
exec "$rustc" "$@"
