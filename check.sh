#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's working tree.
# VERIF_SEED and VERIF_TIER choose the runs.
HERE=$(cd "$(dirname "$0")" && pwd)
P=$1
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-$P.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
R=
[ "$P" = C09 ] && R=race
if ! "$HERE/build.sh" "$W" $R >"$W/build.log" 2>&1; then
	tail -40 "$W/build.log" >&2
	echo "check.sh: the simulator could not be built" >&2
	exit 2
fi
"$W/simrun" check -prop "$P" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -verif "$HERE" -work "$W"
