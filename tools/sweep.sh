#!/bin/bash
# sweep.sh ID FROM TO [options]: runs a check with many seeds, prints only trouble
id=$1; a=$2; b=$3; shift 3
for s in $(seq $a $b); do VERIF_SEED=$s python3 $(dirname $0)/../harness/check.py $id "$@" > /tmp/sweep-$id.log 2>&1 || { echo "seed $s"; grep -E "FAILED|VIOL|error" -A1 /tmp/sweep-$id.log | cut -c1-700; }; done; tail -1 /tmp/sweep-$id.log
