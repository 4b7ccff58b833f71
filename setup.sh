#!/bin/bash
# builds the engine, the harness IR and the native replay once (the checks rebuild what they need)
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu RUSTFLAGS=-Ctarget-cpu=x86-64-v3 CARGO_NET_OFFLINE=true
mkdir -p build evidence
(cd engine && cargo build --release --offline --target-dir /verif/build/engine)
(cd harness && cargo build --offline --features c01 --target-dir /verif/build/harness)
(cd replay && cargo build --offline --features c01 --target-dir /verif/build/replay)
