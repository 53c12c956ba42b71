#!/bin/bash
# Decides one property against /repo's current working tree: check.sh <property> <quick|thorough>
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: no answer.
set -u
prop=$1
tier=${2:-quick}
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" || exit 2
peer=()
if [ "$prop" = C15 ]; then
    build_nostd || exit 2
    peer=(--peer "$NOSTD_BIN")
fi
exec "$STD_BIN" check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --dir "$here" "${peer[@]}"
