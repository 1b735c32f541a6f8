#!/bin/bash
# build the simulator from /repo's working tree
VROOT=${VROOT:-$(cd "$(dirname "$0")/.." && pwd)}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${VROOT:-/verif}/build/target
python3 ${VROOT:-/verif}/tools/mkview.py ${REPO:-/repo} ${VROOT:-/verif}/build/ws
cd ${VROOT:-/verif}/sim && cargo build --release --offline >${VROOT:-/verif}/build/b.log 2>&1; rc=$?; grep -E "^error" -A7 ${VROOT:-/verif}/build/b.log | head -${1:-60}; exit $rc
