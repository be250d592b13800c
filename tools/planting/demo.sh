#!/bin/bash
# Run in the root of netcdf3. Exit 0: the demonstration passes; nonzero: it fails.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS
d="$(mktemp -d)" || exit 90
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/demo/src" "$d/data"
cp "$here/demo.rs" "$d/demo/src/main.rs" && cp "$here/shim.rs" "$d/demo/src/shim.rs" || exit 90
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/demo/Cargo.lock"
cat > "$d/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
netcdf3 = { path = "$repo" }
[workspace]
T
cd "$d/demo" || exit 90
CARGO_TARGET_DIR="$d/target" RUSTFLAGS=-Awarnings cargo build --offline --quiet || exit 91
cd "$d/data" || exit 90
timeout 60 "$d/target/debug/demo"
