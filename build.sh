#!/bin/bash
# Builds the harness against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
exec cargo build --release --offline --locked --quiet --manifest-path harness/Cargo.toml
