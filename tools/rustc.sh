#!/bin/bash
# cargo's RUSTC_WRAPPER: the library and the crates its generic code is instantiated in report the branches they take and the
# comparisons they make to engine/src/cov.rs. Everything else is compiled as it is.
name= kind=
for ((i = 1; i <= $#; i++)); do
  j=$((i + 1))
  case ${!i} in
    --crate-name) name=${!j} ;;
    --crate-type) kind=${!j} ;;
  esac
done
case $name:$kind in
  *:proc-macro) exec "$@" ;;
  ssz:* | codec:* | proto:* | derived:* | unions:* | bits:*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares \
      -Cllvm-args=-sanitizer-coverage-gated-trace-callbacks ;;
  *) exec "$@" ;;
esac
