#!/bin/bash
# rustc wrapper of the instrumented build: yield points inside the library and what it instantiates
rustc=$1; shift
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ] && { [ "$a" = la ] || [ "$a" = lasim ]; }; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
  fi
  prev=$a
done
exec "$rustc" "$@"
