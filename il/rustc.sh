#!/bin/bash
# Wraps rustc: the library, and what is instantiated of it, is compiled with its accesses to memory reported.
r=$1
shift
case " $* " in
*" --crate-name pddl "* | *" --crate-name pddl_il "*)
    exec "$r" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=1 \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
    ;;
*) exec "$r" "$@" ;;
esac
