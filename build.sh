#!/bin/bash
# Builds the model checker (release, debug assertions on) and prints its path.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN="${MC_TOOLCHAIN:-1.88.0}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR="$here/target"
mkdir -p "$here/evidence"
cd "$here/mc" || exit 1
cargo build --release --offline --locked >"$here/evidence/build.log" 2>&1 || { tail -n 60 "$here/evidence/build.log" >&2; exit 1; }
echo "$CARGO_TARGET_DIR/release/mc"
