#!/bin/bash
# Builds the harnesses once (the checks rebuild whatever is out of date themselves).
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTC_WORKSPACE_WRAPPER="$here/sim/rustc-wrap.sh" CARGO_TARGET_DIR="${VERIF_TARGET:-$here/target}" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
pkgs="-p simh_core"
[ -d "$here/sim/full" ] && pkgs="$pkgs -p simh_full"
cd "$here/sim" && cargo build --release --offline --locked --quiet $pkgs 2>&1 | grep -E -A8 '^error'
exit 0
