#!/bin/sh
# Checks build themselves; this only verifies that the tools they need are here.
set -e
cd "$(dirname "$0")"
command -v cargo python3 z3 cvc5 >/dev/null
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg ripp_verif" CARGO_TARGET_DIR="$PWD/target" \
  cargo build --offline --quiet --manifest-path checks/Cargo.toml
# the same harness against ark-inner-products without its "parallel" feature
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg ripp_verif" CARGO_TARGET_DIR="$PWD/target/seq" \
  cargo build --offline --quiet --no-default-features --manifest-path checks/Cargo.toml
