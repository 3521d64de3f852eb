#!/bin/bash
cd /tmp/exp
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUSTFLAGS=-Awarnings
cargo build --offline --quiet || exit 3
timeout -s KILL 20 target/debug/exp "$@"
