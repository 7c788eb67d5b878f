#!/bin/bash
# Build the harness once, to show that it builds offline.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${ORV_TARGET:-$PWD/target}
. ./lib.sh
mkdir -p "$CARGO_TARGET_DIR"
build_plain
