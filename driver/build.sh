#!/bin/bash
# Builds the driver against /repo's working tree with the project's own toolchain.
# usage: build.sh TARGET_DIR
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$HERE" || exit 1
export CARGO_TARGET_DIR="${1:?target dir}"
exec "$CARGO" build --offline -q
