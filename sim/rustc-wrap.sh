#!/bin/bash
# cargo's RUSTC_WRAPPER: compiles the library under test and the glue that
# instantiates its generics with a callback at every basic block, load and
# store.  Everything else is compiled as usual.  The LLVM code is kept for
# check.py to look for the numbers it compares with and divides by.
case " $* " in
*" --crate-name nominals "* | *" --crate-name sut "*)
  exec "$@" --emit=llvm-ir -C passes=sancov-module \
    -C llvm-args=-sanitizer-coverage-level=3 \
    -C llvm-args=-sanitizer-coverage-trace-pc-guard \
    -C llvm-args=-sanitizer-coverage-trace-loads \
    -C llvm-args=-sanitizer-coverage-trace-stores
  ;;
*" --crate-name nomsim "*)
  # What is copied is counted.
  exec "$@" -C link-arg=-Wl,--wrap=memmove,--wrap=memcpy
  ;;
*) exec "$@" ;;
esac
