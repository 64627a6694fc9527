#!/bin/bash
# RUSTC_WRAPPER of the harness build: in the crate under test every atomic operation (so every
# lock, once-cell and counter) becomes a call that src/sched.rs answers with a scheduling point.
R="$1"
shift
case " $* " in
*" --crate-name mx_message "*) exec "$R" "$@" -Cpasses=tsan -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
esac
exec "$R" "$@"
