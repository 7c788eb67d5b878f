#!/bin/bash
# Run with cwd /repo after the build: what the library answers about in.bin
# (a well formed file) has to be what is stored in it (expect.txt).
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cargo build -q --offline --lib --features unstable-api 2>/dev/null || exit 2
rustc --cap-lints allow --edition 2021 -O -L target/debug/deps --extern libopenraw=target/debug/liblibopenraw.rlib -o "$T/demo" "$D/demo.rs" || exit 2
timeout 100 "$T/demo" "$D"
