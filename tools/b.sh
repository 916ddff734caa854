#!/bin/bash
# Development helper: build, then run the given checks at quick, with labels.
cd "$(dirname "$0")/.."
if ! ./run.sh build > /tmp/vh_build.log 2>&1; then
    touch harness/src/main.rs
    (cd harness; CARGO_TARGET_DIR=$PWD/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --release --offline --message-format short 2>&1 | grep "^src" | grep -v "warning" | head -40)
    exit 1
fi
for c in "$@"; do VH_LABELS=1 ./run.sh check $c ${TIER:-quick} 2>&1 | cut -c1-${W:-1500} | grep -v "has " | head -${L:-60}; done
