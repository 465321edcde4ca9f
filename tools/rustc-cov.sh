#!/bin/bash
# rustc wrapper of the coverage build: the library, and nothing else, counts the edges it takes
rustc=$1; shift
case " $* " in
  *" --crate-name mazth "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Ccodegen-units=1 ;;
esac
exec "$rustc" "$@"
