#!/bin/bash
# check.sh ID [--replay FILE]: build the harness that decides property ID from /repo's working
# tree (hooks on) and run it. Exit 0 held, 1 violated, anything else: the check itself failed.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
case "$id" in
  T*) crate=h_tfhe ;;
  M*) crate=h_math ;;
  C*) crate=h_conc ;;
  X*) crate=h_mux ;;
  R*) crate=h_rt ;;
  U*) crate=h_cpu ;;
  *) echo "unknown property $id" >&2; exit 3 ;;
esac
export VERIF_DIR="$here" CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "$here/harness/$crate" || exit 3
log="$(mktemp)"
if ! cargo build --release --offline --locked >"$log" 2>&1; then
  tail -n 60 "$log" >&2
  rm -f "$log"
  echo "ERROR: harness $crate does not build against /repo" >&2
  exit 3
fi
rm -f "$log"
cd "$here" || exit 3
exec "$here/target/release/$crate" "$@"
