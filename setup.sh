#!/bin/bash
# build everything that the checks need (offline)
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/build.sh" && . "$V/build_server.sh"
