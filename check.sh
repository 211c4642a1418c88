#!/bin/bash
# check.sh PROPERTY          explores the property (VERIF_SEED, VERIF_TIER), exit 0, or 1 and a VIOLATION line
# check.sh replay FILE [-v]  executes a replay file again
# check.sh build             only builds the simulator
# check.sh exec ARGS…        builds the simulator and runs it with these arguments
#
# The simulator is built from the working tree of /repo every time: the rewriter puts the simulated
# runtime in the place of go statements, channels, sync, time, os, net … in a copy of the sources.
cd "$(dirname "$0")" || exit 2
HERE=$PWD
. /opt/vp/env.sh
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
case $SEED in *[!0-9]*|"") SEED=1 ;; esac
D=$(mktemp -d "${TMPDIR:-/tmp}/zzverif.XXXXXXXX") || exit 2
export TMPDIR=$D
trap 'rm -rf -- "$D"' EXIT
trap 'exit 2' TERM INT HUP

build() {
	(cd sim/rewriter && go build -trimpath -o "$D/simrewrite" .) &&
		mkdir -p "$D/b" && cp -r sim/rt sim/stubs "$D/b/" &&
		"$D/simrewrite" -repo /repo -out "$D/b" &&
		mkdir -p "$D/b/src/internal/zzsim" && cp sim/harness/*.go "$D/b/src/internal/zzsim/" &&
		(cd "$D/b/src" && go build -trimpath -o "$D/zzsim" ./internal/zzsim)
}
if ! build >"$D/build.log" 2>&1; then
	cat "$D/build.log" >&2
	echo "the simulator could not be built from /repo" >&2
	exit 2
fi
rm -rf -- "$D/b" "$D/simrewrite"

case $1 in
build) exit 0 ;;
replay) shift; "$D/zzsim" replay "$@"; exit $? ;;
exec) shift; "$D/zzsim" "$@"; exit $? ;;
esac
mkdir -p evidence replays
"$D/zzsim" run -prop "$1" -tier "$TIER" -seed "$SEED" -evidence "evidence/$1.json" -replays "$HERE/replays" -findings known-findings.txt
exit $?
