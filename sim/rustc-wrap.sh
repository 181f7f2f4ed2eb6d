#!/bin/bash
# rustc with preemption points (a call per basic block) in the crates whose interleavings matter
case " $* " in
    *" --crate-name kameo "*|*" --crate-name kameo_actors "*|*" --crate-name simlocal "*)
        exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc ;;
esac
exec "$@"
