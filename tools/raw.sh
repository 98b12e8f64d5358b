#!/bin/bash
# raw.sh harness variant [args]: runs a harness on all shards and prints the raw failures (development aid)
cd /verif; exe=$(python3 -c "
import sys; sys.path.insert(0,'lib'); import build; import os; print(build.build_harness('$1','$2',tool=os.environ.get('TOOL'),tool_variant=os.environ.get('TV')))" | tail -1)
o=/dev/shm/raw.$1; rm -rf "$o"; mkdir -p $o; v=$2; n=$1; shift 2
for i in 0 1 2 3 4 5 6 7; do (cd $o; HOME=$o LC_ALL=C.UTF-8 ASAN_OPTIONS=detect_leaks=0 $exe --shard $i --shards 8 --out $o "$@" >$o/out.$i 2>$o/err.$i; echo "rc $?" >> $o/err.$i) & done; wait
sort -R $o/fail.* | wc -l; cat $o/fail.* | sort -n -k1,1 -k2,2 | cut -c1-600 | head -${N:-40}; tail -qn2 $o/err.* | sort | uniq -c; cat $o/stats.0 | head -3
