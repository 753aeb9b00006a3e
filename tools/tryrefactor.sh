#!/bin/bash
# tryrefactor.sh NAME [PROPS...]: apply tools/refactors/NAME.diff (behaviour kept) to /repo, run the quick checks, undo.
cd "$(dirname "$0")/.." || exit 2
n=$1; shift
props=${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
git -C /repo apply "$PWD/tools/refactors/$n.diff" || exit 2
trap 'git -C /repo checkout -q -- . ; git -C /repo clean -fdq -e target' EXIT
for p in $props; do
    s=$(date +%s)
    timeout 900 ./run.sh "$p" quick >/tmp/tryref.log 2>&1
    rc=$?
    echo "$n $p rc=$rc $(($(date +%s) - s))s $(grep -E 'VIOLATION|not available|does not build' /tmp/tryref.log | head -2 | tr '\n' ' ')"
    [ $rc -ne 0 ] && tail -5 /tmp/tryref.log | cut -c1-300
done
