#!/bin/bash
# replay.sh FILE: rebuild the harness named in the replay file and execute exactly that run.
here="$(cd "$(dirname "$0")" && pwd)"
f="$1"
h=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["harness"])' "$f") || exit 2
export RUSTC_WORKSPACE_WRAPPER="$here/sim/rustc-wrap.sh" CARGO_TARGET_DIR="${VERIF_TARGET:-$here/target}"
export OPENBLAS_NUM_THREADS=1 CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
(cd "$here/sim" && cargo build --release --offline --locked --quiet -p "simh_$h") >&2 || exit 2
exec "$CARGO_TARGET_DIR/release/simh_$h" replay "$f" --known "$here/known_findings.json"
