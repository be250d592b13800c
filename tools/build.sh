#!/bin/bash
# Builds the simulator against /repo's current working tree (offline).
# Exit 0: harness/target/release/simcheck is up to date. Exit 3: it does not build.
set -u
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$ROOT/harness/target"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export RUSTC_WRAPPER="$ROOT/tools/rustc-wrap.sh"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.build-lock"
flock 9
# cargo trusts modification times; a changed tree with old times must be rebuilt too
now="$( { cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum; cd "$ROOT/harness" && find Cargo.toml Cargo.lock src ../tools/rustc-wrap.sh -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)"
if [ ! -x "$CARGO_TARGET_DIR/release/simcheck" ] || [ "$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)" != "$now" ]; then
  rm -f "$CARGO_TARGET_DIR/.sources"
  cd "$ROOT/harness" || exit 3
  cargo clean --offline --release -p netcdf3 -p simcheck >/dev/null 2>&1
  if ! cargo build --offline --locked --release >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    tail -n 40 "$CARGO_TARGET_DIR/build.log" >&2
    exit 3
  fi
  echo "$now" > "$CARGO_TARGET_DIR/.sources"
fi
exit 0
