#!/bin/bash
# Warm the build caches; every check rebuilds what it needs from /repo anyway.
cd "$(dirname "$0")/../proofs" || exit 0
export CARGO_NET_OFFLINE=true
RUSTFLAGS="-A dangerous_implicit_autorefs -A unexpected_cfgs --cfg hexo_verif" CARGO_TARGET_DIR=../.build/native \
  RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu timeout 600 cargo build --offline --features p04 --bin native >/dev/null 2>&1
RUSTFLAGS="-A dangerous_implicit_autorefs -A unexpected_cfgs --cfg hexo_verif" \
  timeout 900 cargo kani --lib --features p04 --target-dir ../.build/kani -Z function-contracts -Z stubbing -Z unstable-options \
  -j 8 --output-format=terse >/dev/null 2>&1
exit 0
