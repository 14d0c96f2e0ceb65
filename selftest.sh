#!/bin/bash
# selftest.sh [PROPERTY…]: proves the simulator deterministic on a sample. Each
# property's runs are executed in one process, in seven processes, backwards,
# with several OS threads, and again from the recorded choices and schedules;
# the digests of all runs must agree.
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-self.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
N=${N:-2000} SEEDS=${SEEDS:-1 2 3}
"$HERE/build.sh" "$W" >"$W/build.log" 2>&1 || { tail -20 "$W/build.log" >&2; exit 2; }
bad=0
one() { "$W/simrun" digest -prop "$1" -seed "$2" "${@:3}"; }
for p in ${@:-$("$W/simrun" list)}; do
	n=$N
	for s in $SEEDS; do
		one $p $s -to $n | sort -n >"$W/a" &
		one $p $s -to $n -reverse 1 | sort -n >"$W/b" &
		one $p $s -to $n -procs 4 | sort -n >"$W/c" &
		one $p $s -to $n -replay 1 | sort -n >"$W/e" &
		wait
		for i in 0 1 2 3 4 5 6; do one $p $s -from $i -to $n -step 7 >"$W/d$i" & done
		wait
		sort -n "$W"/d? >"$W/d"
		for x in b c d e; do
			k=$(diff "$W/a" "$W/$x" | grep -c '^>')
			[ "$k" = 0 ] || { echo "$p seed $s: $k of $n runs differ ($x)"; diff "$W/a" "$W/$x" | head -4; bad=1; }
		done
		[ "$(wc -l <"$W/a")" = $n ] || { echo "$p seed $s: incomplete"; bad=1; }
	done
	echo "$p: $n runs, seeds $SEEDS, 5 ways"
done
exit $bad
