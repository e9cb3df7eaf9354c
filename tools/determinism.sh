#!/bin/bash
# Same seed, same execution: runs N seeds of every property's mix three times (many runs in one
# process; each in its own process; with another GC rhythm and GOMAXPROCS) and compares the
# digests (app hashes, results, disk operations of every node, violations, coverage counters).
# usage: tools/determinism.sh [N] [BASESEED] [BIN]
V=$(cd "$(dirname "$0")/.." && pwd); N=${1:-12}; S=${2:-1}; B=${3:-$V/build/sim}
export GOMAXPROCS=1 GOGC=300 GODEBUG=asyncpreemptoff=1
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
for c in $(seq -w 1 27); do echo C$c; done | xargs -P 6 -I{} sh -c "
  $B worker {} $S 0 $N | grep '^{' | python3 -c \"
import sys,json
for l in sys.stdin:
    o=json.loads(l); print(o['seed'],o['profile'],o['digest'])\" > $D/{}
  while read s p d; do
    a=\$($B run \$s \$p 2>/dev/null | sed -n 's/^digest \([0-9a-f]*\),.*/\1/p')
    b=\$(GOGC=40 GOMAXPROCS=3 $B run \$s \$p 2>/dev/null | sed -n 's/^digest \([0-9a-f]*\),.*/\1/p')
    if [ \"\$a\" = \"\$d\" ] && [ \"\$b\" = \"\$d\" ]; then echo same; else echo \"DIFFERS {} \$s \$p worker \$d alone \$a othergc \$b\"; fi
  done < $D/{}" | sort | uniq -c
