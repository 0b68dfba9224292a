#!/bin/bash
# Asks the library about case.hex and compares with expected.txt.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d); trap 'rm -r "$out"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rustc --edition 2021 -A warnings -o "$out/probe" "$here/probe.rs" -L dependency=target/debug/deps --extern libopenraw="$(ls -t target/debug/deps/liblibopenraw-*.rlib | head -1)" || exit 2
(ulimit -v 8000000; timeout 60 "$out/probe" "$here/case.hex" $(cat "$here/args.txt") > "$out/got.txt" 2> "$out/err.txt")
rc=$?
if [ $rc -ne 0 ] || ! diff "$here/expected.txt" "$out/got.txt"; then echo "FAIL (exit $rc)"; tail -3 "$out/err.txt"; exit 1; fi
echo OK
