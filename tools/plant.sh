#!/bin/bash
# Confirms a planted bug: demo passes on the clean tree and fails with the patch,
# the patch builds, the tests still pass, and (unless NOCHECK) whether its check notices.
# usage: tools/plant.sh ID [PROP]      (works in a scratch copy of /repo)
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; S=$V/seeded/$ID
PROP=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
R=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$R"' EXIT
cp -a "${REPO:-/repo}/." "$R/"; cd "$R"
. /opt/vp/env.sh; cd "$R"
if [ -z "$NODEMO" ]; then
bash "$S/demo.sh" >"$R/../plant.$ID.clean" 2>&1 && echo "$ID demo clean ok" || { echo "$ID DEMO FAILS ON CLEAN"; tail -20 "$R/../plant.$ID.clean"; }
fi
git apply "$S/patch.diff" || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
go build ./x/... ./app/... || { echo "$ID DOES NOT BUILD"; exit 1; }
if [ -z "$NODEMO" ]; then
bash "$S/demo.sh" >"$R/../plant.$ID.bug" 2>&1 && echo "$ID DEMO PASSES WITH BUG" || { grep -q "build failed\|setup failed" "$R/../plant.$ID.bug" && echo "$ID DEMO BUILD FAIL"; echo "$ID demo bug ok"; }
fi
if [ -z "$NOTEST" ]; then
pk=$(go list -e ./... | grep -v -e '^defund/cmd' -e '^defund/app$' -e verifsim)
go test -vet=off -count=1 $pk > "$R/../plant.$ID.test" 2>&1 && go test -vet=off -count=1 ./app -args -Enabled=true -Commit=true -NumBlocks=30 -BlockSize=30 -Seed=7 >> "$R/../plant.$ID.test" 2>&1 ; grep -- '--- FAIL\|panic:' "$R/../plant.$ID.test" | grep -v 'TestAppStateDeterminism' > "$R/../plant.$ID.fails"; [ -s "$R/../plant.$ID.fails" ] && { echo "$ID TESTS FAIL"; head "$R/../plant.$ID.fails"; } || echo "$ID tests pass"
fi
if [ -z "$NOCHECK" ]; then
mkdir -p /tmp/plantv.$ID/evidence; cp $V/known-findings.txt /tmp/plantv.$ID/
"$V/tools/build.sh" /tmp/plantv.$ID/sim "$R" && /tmp/plantv.$ID/sim check "$PROP" quick ${SEED:-1} /tmp/plantv.$ID > /tmp/plantv.$ID/log 2>&1; rc=$?
echo "$ID check $PROP rc $rc: $(grep -v '^KNOWN' /tmp/plantv.$ID/log | cut -c1-260 | head -3)"
rm -f /tmp/plantv.$ID/sim
fi
