#!/bin/bash
# Compiles the parser with coverage callbacks (see src/cov.rs), everything else as usual.
rustc="$1"
shift
case " $* " in
  *" --crate-name elm_parser "*|*" --crate-name nom "*)
    exec "$rustc" "$@" -C codegen-units=1 -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-compares ;;
  *) exec "$rustc" "$@" ;;
esac
