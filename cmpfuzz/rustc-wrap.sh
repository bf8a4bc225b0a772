#!/bin/sh
# Comparison callbacks in the code under test and in the crate that instantiates its generics, nowhere else
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
ml_kem|x_wing|dhkem|harness)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=1 -Cllvm-args=-sanitizer-coverage-trace-compares -Cno-vectorize-loops -Cno-vectorize-slp -Cllvm-args=-max-loads-per-memcmp=0 ;;
cmpfuzz) exec "$@" "-Clink-arg=$CMPFUZZ_OBJ" ;;
*) exec "$@" ;;
esac
