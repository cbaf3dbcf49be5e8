#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -r "$D/crate" "$W/crate"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$W/crate" || exit 3
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/repo/target}
cargo build --offline >"$W/log" 2>&1 || { tail -20 "$W/log"; exit 4; }
timeout 120 "$CARGO_TARGET_DIR/debug/@BIN@" >/dev/null
