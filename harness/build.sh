#!/bin/bash
# Builds the native simulator from /repo's working tree into $1 (target dir).
cd "$(dirname "$0")" || exit 1
export PATH=/opt/vp/tools/bin:/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.99.1 RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER="$PWD/wrap.sh"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$1"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
shift
exec cargo build --release --offline "$@"
