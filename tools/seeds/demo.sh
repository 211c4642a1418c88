#!/bin/bash
# Demonstration: run with the repository as the working directory. Exits 0 if the
# behaviour is right. Everything it writes goes to a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d /tmp/zzdemo.XXXXXX) || exit 99
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
{
	printf '{"Replace": {'
	sep=
	for f in "$here"/*_test.go; do
		printf '%s"%s": "%s"' "$sep" "$PWD/@PKG@/zz_$(basename "$f")" "$f"
		sep=,
	done
	printf '}}'
} > "$tmp/overlay.json"
cp go.mod go.sum "$tmp" || exit 99
timeout 280 go test -modfile "$tmp/go.mod" -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 270s -run 'TestDemo' "./@PKG@"
