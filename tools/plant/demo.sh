#!/bin/bash
# Builds the demonstration beside this file against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
fluffy_tribble = { path = "$repo" }
[workspace]
T
cd "$work" || exit 2
CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}" cargo build --offline >"$work/build.log" 2>&1 || { tail -n 30 "$work/build.log"; exit 2; }
"${DEMO_TARGET:-$work/target}/debug/demo" >/dev/null
