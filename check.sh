#!/bin/bash
# check.sh <property> [quick|thorough]: build the harness against /repo's
# working tree and run one check.
cd "$(dirname "$0")" || exit 2
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export CARGO_NET_OFFLINE=true VERIF_ROOT=$PWD
export CARGO_TARGET_DIR=${ORV_TARGET:-$PWD/target}
. ./lib.sh
build_for "$ID" || { echo "CHECK-ERROR: build failed"; exit 2; }
run_for "$ID" "$TIER"
