#!/bin/bash
# build the checker (offline) from /repo's working tree; also sourced by run.sh
V="${V:-$(cd "$(dirname "$0")" && pwd)}"
export PATH=/usr/local/bin:/usr/bin:/bin:${PATH:-}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
# /repo's lib.rs denies lints on which the installed rustc trips
export RUSTFLAGS="--cap-lints warn"
unset CARGO_PROFILE_DEV_DEBUG CARGO_TARGET_DIR
( cd "$V/mc" && cargo build --offline --quiet 2>"$V/mc/build.log" ) || { cat "$V/mc/build.log" >&2; false; }
