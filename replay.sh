#!/bin/bash
# replay.sh FILE: repeats the execution a replay file describes, against
# /repo's working tree. Exit 1 and a VIOLATION line if it fails again.
HERE=$(cd "$(dirname "$0")" && pwd)
F=$(realpath "$1") || exit 2
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-replay.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
R=
grep -q '"race_detector":true' "$F" && R=race
"$HERE/build.sh" "$W" $R >"$W/build.log" 2>&1 || { tail -40 "$W/build.log" >&2; exit 2; }
"$W/simrun" replay -file "$F"
