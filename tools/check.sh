#!/bin/bash
# check.sh PROPERTY TIER: rebuild the simulator from /repo's working tree, then search for violations.
# The replicated protocols, the virtual machine and UltraHonk (R*, V*, H*) need stand-ins for two dependencies that are not available offline: they have a build of their own.
set -u
cd "$(dirname "$0")/.." || exit 2
ROOT=$PWD
case $1 in R*|V*|H*) WS=ws3 CRATE=sim3 TARGET=target3 BIN=dst3 FULL=--full ;; *) WS=ws CRATE=sim TARGET=target BIN=dst FULL= ;; esac
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$ROOT/build/$TARGET
mkdir -p build
exec 9>build/.lock
flock 9
python3 tools/mkview.py $FULL /repo "$ROOT/build/$WS" || { echo "cannot prepare the view of /repo"; exit 2; }
(cd $CRATE && cargo build --release --offline --locked >"$ROOT/build/build.log" 2>&1) || { tail -40 build/build.log; echo "build failed"; exit 2; }
flock -u 9
exec build/$TARGET/release/$BIN check --root "$ROOT" --property "$1" --tier "$2" "${@:3}"
