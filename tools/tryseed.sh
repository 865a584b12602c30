#!/bin/bash
# tryseed.sh ID [tier] [property]: applies the planted change to a scratch copy of /repo, runs the property's check on it
V=$(cd "$(dirname "$0")/.." && pwd)
R=${SCRATCH:-/tmp/dr}
[ -d $R ] || cp -a /repo $R
git -C $R checkout -q -- .
[ "$(git -C $R rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { git -C $R fetch -q /repo HEAD; git -C $R checkout -q FETCH_HEAD; }
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$1/meta.json'))['property'])")
git -C $R apply $V/seeded/$1/patch.diff || exit 2
$V/bin/gosym -repo $R -verif $V -prop ${3:-$P} -tier ${2:-quick} 2>&1 | grep -v "^ *note" | cut -c1-300 | tail -12; rc=${PIPESTATUS[0]}
git -C $R checkout -q -- .
echo "$1 $P rc=$rc"
