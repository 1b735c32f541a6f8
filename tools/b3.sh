#!/bin/bash
# build the simulator with the replicated protocols (stand-ins for the garbling dependencies)
VROOT=${VROOT:-$(cd "$(dirname "$0")/.." && pwd)}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${VROOT:-/verif}/build/target3
python3 ${VROOT:-/verif}/tools/mkview.py --full ${REPO:-/repo} ${VROOT:-/verif}/build/ws3
cd ${VROOT:-/verif}/sim3 && cargo build --release --offline >${VROOT:-/verif}/build/b.log 2>&1; rc=$?; grep -E "^error" -A7 ${VROOT:-/verif}/build/b.log | head -${1:-60}; exit $rc
