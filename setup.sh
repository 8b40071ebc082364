#!/bin/bash
# Builds the simulator once, offline, from the committed files and /repo's working tree.
set -u
cd "$(dirname "$0")/dst" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cargo build --release --offline --quiet
