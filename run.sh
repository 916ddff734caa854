#!/bin/bash
# Builds the harness against /repo's working tree and runs it with the given arguments.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$here/harness/target"
export VH_ROOT="$here" NO_COLOR=1
unset CARGO_BUILD_TARGET RUSTFLAGS
if ! out=$(cargo build --release --offline --quiet --manifest-path "$here/harness/Cargo.toml" 2>&1); then
    echo "$out" | tail -60
    echo "error: the harness does not build"
    exit 3
fi
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/vh" "$@"
