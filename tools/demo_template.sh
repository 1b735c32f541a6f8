#!/bin/bash
# Builds main.rs against the libraries of the tree in the current directory and runs it: exit 0 if the property held.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export DEMO_REPO="$R"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
python3 "$D/view.py" "$R" "$T/ws"
mkdir -p "$T/demo/src"
cp "$D/main.rs" "$T/demo/src/main.rs"
sed "s|@WS@|$T/ws|" "$D/Cargo.toml.in" > "$T/demo/Cargo.toml"
[ -f "$D/Cargo.lock" ] && cp "$D/Cargo.lock" "$T/demo/Cargo.lock"
cd "$T/demo"
cargo build --offline -q 2>"$T/log" || { tail -30 "$T/log"; exit 3; }
timeout 120 "$T/target/debug/demo"
