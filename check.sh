#!/bin/bash
# check.sh PROPERTY [quick|thorough]: exit 0 held, 1 violated, anything else no verdict.
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
log=$(./build.sh 2>&1) || { printf '%s\n' "$log"; echo "ERROR: the harness does not build"; exit 2; }
ulimit -v 16000000
exec target/release/odr-verif check "$1"
