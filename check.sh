#!/bin/bash
# check.sh PROP [quick|thorough]: build the harnesses from /repo's working tree and run one property.
# Exit 0: held on everything explored; 1: VIOLATION; 2: no verdict (build or harness error).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"
export RUSTC_WORKSPACE_WRAPPER="$here/sim/rustc-wrap.sh" CARGO_TARGET_DIR="${VERIF_TARGET:-$here/target}"
export OPENBLAS_NUM_THREADS=1 CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
# which harnesses decide which property
case "$prop" in
    C16) parts="core" ;;
    C10) parts="core" ;;
    C09|C11|C12|C13|C14) parts="core full" ;;
    C*) parts="full" ;;
    *) echo "unknown property $prop" >&2; exit 2 ;;
esac
mkdir -p "$here/evidence" "$here/replays" "$CARGO_TARGET_DIR"
ev="$here/evidence/$prop.json"
rm -f "$ev"
base=""
rc=0
for p in $parts; do
    log="$CARGO_TARGET_DIR/build-$prop-$p.log"
    if ! (cd "$here/sim" && cargo build --release --offline --locked --quiet -p simh_$p) >"$log" 2>&1; then
        grep -E -A12 '^error' "$log" | head -80 >&2
        echo "check $prop: the $p harness does not build against /repo's working tree" >&2
        [ $rc -ne 1 ] && rc=2
        continue
    fi
    "$CARGO_TARGET_DIR/release/simh_$p" check "$prop" --tier "$tier" --seed "$seed" \
        --known "$here/known_findings.json" --replays "$here/replays" --evidence "$ev" ${base:+--base "$base"}
    r=$?
    [ $r -gt 2 ] && r=2
    if [ $r -eq 1 ]; then rc=1; elif [ $r -ne 0 ] && [ $rc -ne 1 ]; then rc=2; fi
    if [ -f "$ev" ]; then cp "$ev" "$here/evidence/.$prop.part"; base="$here/evidence/.$prop.part"; fi
done
rm -f "$here/evidence/.$prop.part"
exit $rc
