#!/bin/bash
# Build the harness against /repo's current tree (offline).
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export VERIF_ROOT=$ROOT
export CARGO_TARGET_DIR=$ROOT/target
export RUSTC_WRAPPER=$ROOT/harness/rustc-wrapper.sh
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
# Cargo notices changes by time stamps; make sure by contents.
sum=$(cd /repo && { find src -type f -name '*.rs' -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/.srcsum" 2>/dev/null)" != "$sum" ]; then
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/ext4-view-* "$CARGO_TARGET_DIR"/release/.fingerprint/harness-* \
    "$CARGO_TARGET_DIR"/nostd/release/.fingerprint/ext4-view-* "$CARGO_TARGET_DIR"/nostd/release/.fingerprint/nostd-* 2>/dev/null
  rm -f "$CARGO_TARGET_DIR/.srcsum"
fi
if ! (cd harness && cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1); then
  cat "$CARGO_TARGET_DIR/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
# The library as shipped, without std and without monitors.
if ! (cd nostd && env -u RUSTC_WRAPPER CARGO_TARGET_DIR="$ROOT/target/nostd" cargo build --release --offline >"$CARGO_TARGET_DIR/build-nostd.log" 2>&1); then
  cat "$CARGO_TARGET_DIR/build-nostd.log" >&2
  echo "build failed" >&2
  exit 2
fi
echo "$sum" >"$CARGO_TARGET_DIR/.srcsum"
exit 0
