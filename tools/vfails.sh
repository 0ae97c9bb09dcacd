#!/bin/bash
# names of the functions the errors of /tmp/vx/PACK.out fall in
cd /tmp/vx; grep -A1 -E "^error" $1.out | grep -oE "$1.rs:[0-9]+" | cut -d: -f2 | sort -un | while read l; do awk -v L=$l 'NR<=L && /^ *(pub )?(proof |spec |broadcast )*fn/ {x=$0} NR==L{print L": "substr(x,1,90)}' $1.rs; done
