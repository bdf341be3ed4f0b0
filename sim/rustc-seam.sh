#!/bin/sh
# rustc wrapper: compiles the code under test (its own crate and the small text crates it is
# made of) with a call on every edge and instead of every atomic operation, and everything else
# as usual.
rustc=$1
shift
prev=
name=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
case $name in
mvdparser | bstr | memchr | quake_text | quake_clientinfo | quake_serverinfo | quake_infostring)
    exec "$rustc" "$@" "-Cpasses=sancov-module,function(tsan)" \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-tsan-instrument-memory-accesses=0 \
        -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
        -Cllvm-args=-tsan-instrument-memintrinsics=0
    ;;
esac
exec "$rustc" "$@"
