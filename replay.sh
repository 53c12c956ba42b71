#!/bin/bash
# Replays a recorded violation against /repo's current working tree: replay.sh <file>
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" || exit 2
peer=()
if grep -q '"property": "C15"' "$1"; then
    build_nostd || exit 2
    peer=(--peer "$NOSTD_BIN")
fi
exec "$STD_BIN" replay "$1" "${peer[@]}"
