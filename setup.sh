#!/bin/sh
# Builds the conformance harness once (every check rebuilds it from /repo's tree anyway).
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTFLAGS
cargo build --offline
