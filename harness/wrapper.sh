#!/bin/bash
# RUSTC_WRAPPER: adds edge-coverage callbacks to the crate under test only (see DESIGN.md, "Instrumentation").
rustc=$1; shift
case " $* " in
  *" --crate-name rphonetic "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=8 ;;
  *) exec "$rustc" "$@" ;;
esac
