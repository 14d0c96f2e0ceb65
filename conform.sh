#!/bin/bash
# conform.sh [RUNS]: proves that the instrumenter preserves meaning, on the
# program in conform/: its real output must come out under every schedule.
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-conform.XXXXXX") || exit 2
trap 'rm -rf "$W" /tmp/verif-conform-in' EXIT
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x $d/go ] && { export PATH=$d:$PATH; break; }
done
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
(cd "$HERE/tool" && go build -o "$W/instr" ./instr) || exit 2
(cd "$HERE/conform" && go build -o "$W/native" ./helium-lint) || exit 2
printf 'one\ntwo\n' >/tmp/verif-conform-in
echo "in put" | "$W/native" /tmp/verif-conform-in /tmp/verif-conform-none >"$W/want" 2>"$W/err"
rc=$?
cat "$W/err" >>"$W/want"
echo "exit $rc" >>"$W/want"
cp "$HERE/conform/go.mod" "$W/mod.mod"
touch "$W/mod.sum"
"$W/instr" -src "$HERE/conform" -out "$W/c" -zzsim "$HERE/rt/zzsim" -modfile "$W/mod.mod" || exit 2
mkdir -p "$W/c/driver" && cp "$HERE/conform/driver/main.go" "$W/c/driver/"
cd "$W/c" && go build -tags zzdriver -o "$W/drive" ./driver || exit 2
"$W/drive" "${1:-2000}" "$W/want"
