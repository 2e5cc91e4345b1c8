#!/bin/bash
# check.sh <property> [options] | replay FILE | one ... | det N | list
# Builds the simulator against /repo's current working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" VERIF_DIR="$here"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/sim/target" RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
log="$(mktemp)"
if ! (cd "$here/sim" && cargo build --offline --locked) >"$log" 2>&1; then
  echo "the simulator does not build against this tree:"; tail -n 60 "$log"; rm -f "$log"; exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
case "$1" in C[0-9]*) set -- check "$@" ;; esac
exec "$CARGO_TARGET_DIR/debug/rsim" "$@"
