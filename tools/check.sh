#!/bin/bash
# Decides one property against /repo's current working tree.
# usage: tools/check.sh PROPERTY [quick|thorough]     (VERIF_SEED, VERIF_TIER)
# exit 0: held on everything explored; 1: VIOLATION line printed; 2/3: no verdict
P=$1
T=${2:-${VERIF_TIER:-quick}}
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build" "$V/evidence"
B=$(mktemp -d "$V/build/check.XXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
"$V/tools/build.sh" "$B/sim" "${REPO:-/repo}" || exit 2
cd "$V"
"$B/sim" check "$P" "$T" "${VERIF_SEED:-1}" "$V"
