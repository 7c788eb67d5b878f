#!/bin/bash
# dev.sh GEN[,GEN]: development run of generators
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true VERIF_ROOT=$PWD CARGO_TARGET_DIR=$PWD/target
. ./lib.sh
build_plain || exit 2
ORV_GEN=$1 timeout 300 target/plain/debug/orv DEV ${2:-quick}
