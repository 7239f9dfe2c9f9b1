#!/bin/bash
# build the command s3-server from /repo's working tree; sourced by run.sh (after build.sh) for R06
( cargo build --manifest-path /repo/Cargo.toml --offline --quiet --features binary --bin s3-server --target-dir "$V/mc/target/server" 2>"$V/mc/build.log" ) || { cat "$V/mc/build.log" >&2; false; } &&
export MC_SERVER="$V/mc/target/server/debug/s3-server"
