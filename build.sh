#!/bin/bash
# Sourced: environment for building the harness crates from /repo's working tree.
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER
export CARGO_TARGET_DIR=$(pwd)/target
