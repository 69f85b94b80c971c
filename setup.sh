#!/bin/bash
# Builds every harness once (offline). Each check rebuilds what it needs by itself.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
for c in "$here"/harness/h_*; do
  (cd "$c" && cargo build --release --offline --locked) || exit 1
done
