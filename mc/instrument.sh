#!/bin/bash
# rustc wrapper: the crate under test is compiled with calls at its loads, stores and branches
rustc=$1; shift
case " $* " in
*" --crate-name anothertls "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard \
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$rustc" "$@" ;;
esac
