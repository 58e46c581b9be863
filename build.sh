#!/bin/bash
# Builds the Rust harness against /repo's current working tree (offline).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$PWD/target" CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET
mkdir -p target
# Content stamp: cargo compares mtimes; if the sources differ from the last build, force the crate to be rebuilt.
STAMP=$(cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
exec 9>target/.lock; flock 9
if [ "$(cat target/.stamp 2>/dev/null)" != "$STAMP" ]; then
  rm -f target/.stamp
  (cd harness && cargo clean --release -p ellalgo-rs --offline >/dev/null 2>&1)
fi
LOG=target/build.log
if ! (cd harness && cargo build --release --offline --locked) >"$LOG" 2>&1; then
  tail -40 "$LOG" >&2
  exit 2
fi
echo "$STAMP" > target/.stamp
