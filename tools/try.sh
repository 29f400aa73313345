#!/bin/bash
# usage: try.sh <seed> [property...] : apply a seeded change to /repo, run quick checks, undo.
s=$1; shift; d=/verif/seeded/$s
props=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 1
for p in $props; do echo "== $s vs $p"; bash /verif/run.sh $p quick 2>&1 | tail -3; done
git -C /repo checkout -- .
