#!/bin/bash
cd /verif/dst && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true cargo build --offline --release 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${1:-70}
