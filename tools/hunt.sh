#!/bin/bash
# Reports violations of every property, whatever the profile's own. usage: tools/hunt.sh PROFILE FROM TO [JOBS] [BIN]
export GOMAXPROCS=1 GOGC=300 GODEBUG=asyncpreemptoff=1
V=$(cd "$(dirname "$0")/.." && pwd); B=${5:-$V/build/sim}
seq $2 $3 | xargs -P ${4:-6} -I{} sh -c "timeout 400 $B run {} $1 2>&1 | grep -a '^\[C\|^panic\|^fatal' | cut -c1-330 | sed 's/^/seed {} $1: /'"
