#!/bin/bash
# False-alarm hunt: every check with base seeds FROM..TO from a copy of the binary.
# usage: tools/soak.sh DIR FROM TO [runs]
V=$(cd "$(dirname "$0")/.." && pwd)
D=$1; mkdir -p $D/evidence
cp $V/build/sim $D/sim; cp $V/known-findings.txt $D/
for s in $(seq $2 $3); do for c in $(seq -w 1 25); do
  $D/sim check C$c quick $s $D $4 > $D/C$c.$s.log 2>&1; rc=$?
  echo "C$c seed $s rc $rc $(tail -1 $D/C$c.$s.log)"
  [ $rc = 0 ] || grep -v "^KNOWN" $D/C$c.$s.log | cut -c1-400
done; done
