#!/bin/bash
# triage: runs seeds FROM..TO of a profile, 8 at a time, prints one line per violation class
P=$1; F=$2; T=$3
seq $F $T | xargs -P 8 -I{} sh -c './build/sim run {} '$P' 2>&1 | grep "^\[\|^panic\|^fatal" | sed "s/^/{} /" ' > /tmp/tri.$P
cut -d' ' -f2- /tmp/tri.$P | sed -E 's/^(\[[^]]*\] [^ ]*).*/\1/' | sort | uniq -c | sort -rn | head -${4:-30}
