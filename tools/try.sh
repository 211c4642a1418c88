#!/bin/bash
# try.sh PATCH PROPERTY…: runs checks against a copy of /repo with a patch applied (development only)
. /opt/vp/env.sh
P=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf -- "$D"' EXIT
mkdir "$D/repo" && git -C /repo archive HEAD | tar x -C "$D/repo"
(cd "$D/repo" && git init -q . && git apply "$P") || { echo "patch does not apply"; exit 3; }
(cd /verif/sim/rewriter && go build -trimpath -o "$D/rw" .) && mkdir "$D/b" && cp -r /verif/sim/rt /verif/sim/stubs "$D/b/" &&
	"$D/rw" -repo "$D/repo" -out "$D/b" && mkdir -p "$D/b/src/internal/zzsim" && cp /verif/sim/harness/*.go "$D/b/src/internal/zzsim/" &&
	(cd "$D/b/src" && go build -trimpath -o "$D/zzsim" ./internal/zzsim) || { echo "build failed"; exit 2; }
for p in "$@"; do
	echo "== $p"
	if [ -n "$ALL" ]; then
		"$D/zzsim" run -prop $p -tier quick -seed ${SEED:-1} -secs ${SECS:-20} -runs 1000000 -evidence "$D/e.json" -replays "${REPLAYS:-$D}" -findings /dev/null -all 2>/dev/null | grep -E "^class|^runs|^seed" | cut -c1-400
	else
		"$D/zzsim" run -prop $p -tier quick -seed ${SEED:-1} -evidence "$D/e.json" -replays "${REPLAYS:-$D}" -findings /verif/known-findings.txt 2>&1 | grep -v track
		echo "rc=${PIPESTATUS[0]}"
	fi
done
