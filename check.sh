#!/bin/bash
# usage: check.sh <PROPERTY>     (VERIF_SEED, VERIF_TIER from the environment)
# Rebuilds the harness against /repo's working tree and runs one property check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
log=$(mktemp)
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/pbt" check "$1"
