#!/bin/bash
# check.sh <property> [harness options]: build from /repo and run one check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
./build.sh || exit 2
if [ "${1:-}" = C21 ]; then
  ./wasm/build.sh || exit 2
fi
exec ./target/release/harness "$@"
