#!/bin/bash
# builds the monitors once (every check builds again what it needs, from /repo's current tree)
cd "$(dirname "$0")/harness" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cargo build --offline --profile checked || exit 1
cargo build --offline --profile release
