#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: compiles the code under test and the harness code that instantiates
# its generics with LLVM's edge callbacks, which are the simulator's preemption points.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name="$a"
    prev="$a"
done
case "$name" in
    rstat|rcore|simh_core|simh_full)
        exec "$rustc" "$@" -Clto=off -Cpasses=sancov-module \
            -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    *) exec "$rustc" "$@" ;;
esac
