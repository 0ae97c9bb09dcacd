#!/bin/bash
# vx.sh pack  -> /tmp/vx/pack.rs
mkdir -p /tmp/vx; SYN=$(ls -d ~/.cargo/registry/src/*/syn-2.0.117/src)
/verif/build/xt/debug/hooq-extract ${REPO:-/repo} $SYN /verif/specs/$1.vspec /tmp/vx/$1.rs /tmp/vx/$1.json "${@:2}" || exit 1
grep -E '"(lost|unsupported)|unmatched_loops":[1-9]|"unknown_calls":\["' /tmp/vx/$1.json | cut -c1-300
cd /tmp/vx; time timeout 300 verus $1.rs --error-format=human --multiple-errors 4 --rlimit ${RL:-5} --num-threads 6 $VX > $1.out 2>&1; grep -E "^(error|verification)" $1.out | sort | uniq -c | sort -rn | head -${N:-20}
