#!/bin/bash
# trybug.sh ID [PROP...]: apply seeded/ID to /repo, run the checks of its property (or those given), undo.
cd /verif
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
    t0=$(date +%s)
    bash run.sh $p quick > /tmp/trybug.$p.log 2>&1; rc=$?
    echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -c ^VIOLATION /tmp/trybug.$p.log)"
    grep -B3 ^VIOLATION /tmp/trybug.$p.log | cut -c1-400
done
