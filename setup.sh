#!/bin/bash
# Builds both variants of the simulator once, so that the checks only rebuild what changed.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" || exit 2
build_nostd || exit 2
