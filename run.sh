#!/bin/bash
# run.sh ID quick|thorough [--case N]: build the checker from /repo's working tree and run one check
V="$(cd "$(dirname "$0")" && pwd)"
TIER="${2:-${VERIF_TIER:-quick}}"
. "$V/build.sh" || { echo "build failed" >&2; exit 2; }
if [ "$1" = R06 ]; then
  . "$V/build_server.sh" || { echo "build of the command failed" >&2; exit 2; }
fi
exec "$V/mc/target/debug/mc" "$V" "$1" "$TIER" "${@:3}"
