#!/bin/bash
# Run with cwd /repo.  Builds the small program beside this script against the crates in the current
# directory and compares what it prints with expected.txt.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 NO_COLOR=1
unset RUSTFLAGS CARGO_BUILD_TARGET
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$here/Cargo.lock.txt" "$tmp/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.txt" > "$tmp/Cargo.toml"
export CARGO_TARGET_DIR="$tmp/target" REPO="$repo"
if ! cargo build --offline --quiet --manifest-path "$tmp/Cargo.toml" > "$tmp/log" 2>&1; then
    tail -40 "$tmp/log"
    echo "demo does not build"
    exit 2
fi
ulimit -v 8000000
timeout 60 "$tmp/target/debug/demo" "$here/cases.txt" > "$tmp/out.txt" 2>/dev/null
echo "exit $?" >> "$tmp/out.txt"
sed -E -i "s/[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}/UUID/g" "$tmp/out.txt"
if diff "$here/expected.txt" "$tmp/out.txt"; then
    echo "as expected"
    exit 0
fi
[ -n "$DEMO_OUT" ] && cp "$tmp/out.txt" "$DEMO_OUT"
echo "behaves differently"
exit 1
