#!/bin/bash
# RUSTC_WRAPPER: compiles the crate rx509 with a callback before every basic block, load and store.
case " $* " in
  *" --crate-name rx509 "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$@" ;;
esac
