#!/bin/bash
# developer helper: run groups over 8 shards and print distinct violation signatures
. /verif/env.sh
for g in "$@"; do for i in 0 1 2 3 4 5 6 7; do (mkdir -p /tmp/hvtry/$g.$i; cd /tmp/hvtry/$g.$i; TMPDIR=/tmp/hvtry/$g.$i timeout 200 /verif/.build/target/debug/hv run $g --shard $i/8 --max-secs ${SECS:-60} --seed ${SEED:-1} --casefile /tmp/hvtry/case.$g.$i ${FAM:+--family $FAM} > /tmp/hvtry/o.$g.$i 2>&1; rc=$?; [ $rc != 0 ] && { echo "RC $rc $g $i $(cat /tmp/hvtry/case.$g.$i)"; tail -3 /tmp/hvtry/o.$g.$i; } ) & done; wait; cat /tmp/hvtry/o.$g.*| grep -a BAD | cut -c1-${W:-420} | awk -F' DType' '!s[$1 $2]++'; grep -ah "^  " /tmp/hvtry/o.$g.* | grep -v = | awk '{a[$1]+=$2} END{for(k in a) printf "%s:%d ",k,a[k]; print ""}'; grep -ah ^evals /tmp/hvtry/o.$g.* | head -1; done
