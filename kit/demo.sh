#!/bin/bash
# Runs demo.rs, a scripted history of the real canister in a small simulated world, against the tree in the
# current directory. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
. /opt/vp/env.sh
cp -r "$here/kit/." "$tmp/" || exit 3
cp "$here/demo.rs" "$tmp/demo/src/demo.rs" || exit 3
python3 "$tmp/scripts/mirror.py" "$repo" "$tmp/ws" || exit 3
export CARGO_TARGET_DIR="${DEMO_TARGET:-$tmp/target}" Ankr_Api_Key=k Llama_Api_Key=k
cd "$tmp/demo" || exit 3
cargo build --offline >build.log 2>&1 || { tail -40 build.log; exit 4; }
timeout 100 "$CARGO_TARGET_DIR/debug/demo" >/dev/null
