#!/bin/bash
# trycheck.sh SEED [PROP...]: run checks on a scratch copy of /repo with the planted change (development only)
id=$1; shift
w=/tmp/try_$id; rm -rf $w; mkdir -p $w; git -C /repo archive HEAD | tar x -C $w; cp /repo/Cargo.lock $w/ 2>/dev/null
( cd $w && git init -q . && git apply --whitespace=nowarn /verif/seeded/$id/patch.diff ) || { echo "no apply"; exit 2; }
props="$@"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
for p in $props; do SA_REPO=$w python3 /verif/check.py $p > /tmp/try_$id.$p.out 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -c 'broken:' /tmp/try_$id.$p.out) broken; $(grep -m1 'broken:' /tmp/try_$id.$p.out | cut -c1-200)"; done
rm -rf $w
