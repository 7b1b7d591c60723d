#!/bin/sh
# Instruments the crates under test, and nothing else, with callbacks at every basic block and at
# every load and store.
name=
prev=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name=$a
    prev=$a
done
case "$name" in
serde_json_path | serde_json_path_core | schedops | inventory)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
    ;;
*) exec "$@" ;;
esac
