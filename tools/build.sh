#!/bin/bash
# Builds the simulator binary from /repo's current working tree and /verif/sim.
# usage: tools/build.sh OUT [REPO]     (EXTRA_OVERLAY: further overlay entries, for mutation runs)
set -e
mkdir -p "$(dirname "$1")"
OUT=$(readlink -f "$1")
V=$(cd "$(dirname "$0")/.." && pwd)
R=${2:-/repo}
. /opt/vp/env.sh
cd "$R"
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
{
	echo '{"Replace": {'
	first=1
	for f in "$V"/sim/*.go; do
		[ $first = 1 ] || echo ','
		first=0
		printf '"%s/verifsim/%s": "%s"' "$R" "$(basename "$f")" "$f"
	done
	[ -z "$EXTRA_OVERLAY" ] || echo ", $EXTRA_OVERLAY"
	echo '}}'
} >"$D/overlay.json"
cp go.mod "$D/go.mod"
cp go.sum "$D/go.sum"
printf '\nrequire aaa v0.0.0\nreplace aaa => %s/sim/aaa\n' "$V" >>"$D/go.mod"
go build -overlay "$D/overlay.json" -modfile="$D/go.mod" -ldflags=-checklinkname=0 -o "$OUT" ./verifsim
