#!/bin/bash
# Builds the simulators once (checks rebuild what changed).
set -eu
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
mkdir -p build
python3 tools/mkview.py /repo build/ws
(cd sim && CARGO_TARGET_DIR=$PWD/../build/target cargo build --release --offline --locked)
python3 tools/mkview.py --full /repo build/ws3
(cd sim3 && CARGO_TARGET_DIR=$PWD/../build/target3 cargo build --release --offline --locked)
