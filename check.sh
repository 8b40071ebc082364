#!/bin/bash
# Rebuilds the simulator against /repo's working tree and decides one property.
# usage: check.sh <property> [quick|thorough]
set -u
cd "$(dirname "$0")/dst" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export DST_ROOT="${DST_ROOT:-$(cd .. && pwd)}"
[ -n "${2:-}" ] && export VERIF_TIER="$2"
cargo build --release --offline --quiet 1>&2 || { echo "the simulator does not build" >&2; exit 2; }
exec ./target/release/dst check "$1"
