#!/bin/bash
# Builds the harness once, offline. Every check builds again what changed.
cd "$(dirname "$0")" || exit 1
CARGO_TARGET_DIR=$PWD/build CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg goggles_verif" \
    cargo build --offline --locked --manifest-path harness/Cargo.toml
