#!/bin/bash
# RUSTC_WRAPPER of the instrumented build: edge counters in the library and its parsers.
R=$1; shift
case " $* " in
  *" --crate-name mx_message "* | *" --crate-name quick_xml "*)
    exec "$R" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
esac
exec "$R" "$@"
