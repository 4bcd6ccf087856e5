#!/bin/bash
# run.sh build | <ID> quick|thorough | replay FILE | show KIND TEXT
# Rebuilds the checker (and /repo's crate with the hook on) and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/mc" || exit 2
export RUSTFLAGS="--cfg pycore_verif -Awarnings" CARGO_TARGET_DIR="$here/mc/target" CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! cargo build --release --offline --quiet >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"
    echo "the checker does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
case "$1" in
    build) exit 0 ;;
    replay|show|walk) exec "$CARGO_TARGET_DIR/release/mc" "$@" ;;
    *) exec "$CARGO_TARGET_DIR/release/mc" run "$1" "${2:-quick}" ;;
esac
