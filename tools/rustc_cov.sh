#!/bin/bash
# Compiler wrapper: adds coverage counters and comparison tracing to the library
# under test and to the crate that instantiates its generic code.
rustc="$1"
shift
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ] && { [ "$a" = eth_trie_utils ] || [ "$a" = sut ]; }; then
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
      -Cllvm-args=-sanitizer-coverage-trace-compares \
      -Cllvm-args=-sanitizer-coverage-pc-table \
      -Ccodegen-units=1
  fi
  prev="$a"
done
exec "$rustc" "$@"
