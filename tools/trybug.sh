#!/bin/bash
# tools/trybug.sh ID [CHECK...]: run checks against /repo with the planted bug applied, then undo.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
for c in "$@"; do ./check "$c" >/tmp/trybug.$id 2>&1; echo "$id $c rc=$? $(grep -c ^VIOLATION /tmp/trybug.$id) $(grep ^VIOLATION /tmp/trybug.$id | head -1 | cut -c1-160)"; done
git -C /repo checkout -- .
