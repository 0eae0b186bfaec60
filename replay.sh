#!/bin/bash
# replay.sh FILE: rebuild the driver and run the one recorded case again
set -u
here="$(cd "$(dirname "$0")" && pwd)"
f="$1"
crate=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1])).get("driver",""))' "$f")
[ -n "$crate" ] || { cat "$f"; exit 0; }
mapfile -t args < <(python3 -c 'import json,sys;print("\n".join(json.load(open(sys.argv[1]))["args"]))' "$f")
export CARGO_TARGET_DIR="${VERIF_TARGET:-$here/target}" RUSTUP_TOOLCHAIN=1.94 RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0
(cd "$here/harness/$crate" && cargo build --offline --locked -q) || exit 2
exec "$CARGO_TARGET_DIR/debug/$crate" "${args[@]}"
