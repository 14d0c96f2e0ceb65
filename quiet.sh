#!/bin/bash
# quiet.sh [quiet/X.diff...]: applies each refactoring of quiet/, which change
# how helium works but nothing that can be observed, to a copy of /repo and
# runs the checks there. All of them have to stay quiet. (About 25 minutes.)
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d "${TMPDIR:-/tmp}/quiet.XXXXXX") || exit 2
trap 'rm -rf "$T"' EXIT
rc=0
for d in "${@:-$HERE/quiet/}"; do
	for f in $(if [ -d "$d" ]; then ls "$d"/*.diff; else echo "$d"; fi); do
		rm -rf "$T/repo" "$T/w"
		mkdir -p "$T/repo" "$T/v/evidence"
		git -C /repo archive HEAD | tar -x -C "$T/repo"
		patch -s -p1 -d "$T/repo" <"$f" || { echo "$f does not apply"; rc=1; continue; }
		VERIF_REPO=$T/repo "$HERE/build.sh" "$T/w" race >"$T/build.log" 2>&1 || { echo "$f does not build"; tail -5 "$T/build.log"; rc=1; continue; }
		cp "$HERE/known-findings.txt" "$T/v/"
		for p in ${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}; do
			"$T/w/simrun" check -prop $p -seed "${VERIF_SEED:-1}" -tier quick -verif "$T/v" -work "$T/w" >"$T/log" 2>&1
			r=$?
			echo "$(basename "$f") $p $r"
			[ $r = 0 ] || { cat "$T/log"; rc=1; }
		done
	done
done
exit $rc
