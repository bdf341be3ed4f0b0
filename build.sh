#!/bin/bash
# Builds the simulator together with the code under test from /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$here/sim/target
export RUSTC_WRAPPER=$here/sim/rustc-seam.sh
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
# one build at a time; what was compiled from other sources is not reused
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
seam=$(sha256sum "$here/sim/rustc-seam.sh" "$here/sim/Cargo.toml")
if [ "$seam" != "$(cat "$CARGO_TARGET_DIR/.seam" 2>/dev/null)" ]; then
    (cd "$here/sim" && cargo clean --offline --release >/dev/null 2>&1)
    echo "$seam" >"$CARGO_TARGET_DIR/.seam"
fi
now=$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 cat; find src -type f | sort; } | sha256sum)
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)" ]; then
    (cd "$here/sim" && cargo clean --offline --release -p mvdparser >/dev/null 2>&1)
fi
log=$CARGO_TARGET_DIR/build.log
if ! (cd "$here/sim" && cargo build --release --offline --locked >"$log" 2>&1); then
    cat "$log" >&2
    echo "build failed" >&2
    exit 2
fi
echo "$now" >"$CARGO_TARGET_DIR/.sources"
