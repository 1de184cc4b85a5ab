#!/bin/bash
# Build the simulation harness against /repo's current working tree (offline).
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh" RUSTFLAGS="-Clink-arg=-rdynamic"
export CARGO_TARGET_DIR="${MXSIM_TARGET:-$(cd .. && pwd)/target}"
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
log=$(mktemp)
if ! cargo build --offline --locked >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "HARNESS-ERROR build failed"
  exit 2
fi
rm -f "$log"
exit 0
