#!/bin/bash
# Build the library for a platform of 32 bits (offline: the sources of the
# standard library and what they need come with the toolchain, the library's
# own dependencies from cargo's cache).
set -u
cd "$(dirname "$0")" || exit 2
T=$(cd .. && pwd)/target
mkdir -p "$T/wasm"
exec 9>"$T/wasm/.lock"
flock 9
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
sum=$( { find /repo/src src ../harness/src -type f -name '*.rs' -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml; } | sha256sum)
if [ "$(cat "$T/wasm/.srcsum" 2>/dev/null)" != "$sum" ]; then
  rm -rf "$T"/wasm/wasm32-unknown-unknown/release/.fingerprint/ext4-view-* "$T"/wasm/wasm32-unknown-unknown/release/.fingerprint/wasm-*
  rm -f "$T/wasm/.srcsum"
fi
V=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library/vendor
# One source for both kinds of dependencies.
if [ ! -e "$T/wasm/vendor/.done" ]; then
  rm -rf "$T/wasm/vendor"
  mkdir -p "$T/wasm/vendor"
  ln -s "$V"/* "$T/wasm/vendor/" || exit 2
  awk '/^name = /{n=$3} /^version = /{v=$3} /^checksum = /{print n, v, $3}' Cargo.lock | tr -d '"' | while read -r n v c; do
    for d in "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/"$n-$v"; do
      [ -d "$d" ] || continue
      rm -rf "$T/wasm/vendor/$n-$v"
      cp -r "$d" "$T/wasm/vendor/"
      echo "{\"files\":{},\"package\":\"$c\"}" >"$T/wasm/vendor/$n-$v/.cargo-checksum.json"
      break
    done
  done
  touch "$T/wasm/vendor/.done"
fi
if ! cargo +nightly build --release --offline -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown --target-dir "$T/wasm" \
  --config 'source.crates-io.replace-with="vendored"' --config "source.vendored.directory=\"$T/wasm/vendor\"" >"$T/build-wasm.log" 2>&1; then
  cat "$T/build-wasm.log" >&2
  echo "build failed" >&2
  exit 2
fi
echo "$sum" >"$T/wasm/.srcsum"
