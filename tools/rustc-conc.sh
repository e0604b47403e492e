#!/bin/bash
# RUSTC_WRAPPER for limaconc: the library under test is compiled with a call before every basic
# block, load and store, which makes each of them a possible switch point for the scheduler
rustc="$1"; shift
for a in "$@"; do
  if [ "$a" = beancount_parser_lima ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
  fi
done
exec "$rustc" "$@"
