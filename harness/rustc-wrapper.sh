#!/bin/sh
# RUSTC_WRAPPER: compiles ext4_view (only) with LLVM SanitizerCoverage so that
# the harness can count executed control-flow edges.
rustc="$1"; shift
case " $* " in
  *" --crate-name ext4_view "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
