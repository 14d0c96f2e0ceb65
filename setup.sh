#!/bin/bash
# setup.sh: builds the simulator once, to warm the build cache and to fail
# early if something is missing.
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
"$(cd "$(dirname "$0")" && pwd)/build.sh" "$W" race || exit 2
"$W/simrun" list
