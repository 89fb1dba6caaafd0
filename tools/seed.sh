#!/bin/bash
# tools/seed.sh ID...: confirm planted bugs in scratch copies (tests pass, demo fails with, passes without).
cd "$(dirname "$0")/.." || exit 2
one() {
  id=$1; d=$PWD/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$w/repo"; cp -a "$d" "$w/d"; rm -f "$w"/d/*.diff "$w/d/meta.json"
  cd "$w/repo" || exit 2
  bash "$w/d/demo.sh" >"$w/out0" 2>&1; a=$?
  if ! git apply "$d/patch.diff"; then echo "$id: DOES NOT APPLY"; return; fi
  bash "$w/d/demo.sh" >"$w/out1" 2>&1; b=$?
  PYTHONPATH=$w/repo PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=30 --basetemp="$w/tmp" tests >"$w/log" 2>&1
  tail -1 "$w/log" | sed "s/^/$id: demo clean=$a patched=$b tests: /"
  grep ^FAILED "$w/log" | grep -v -e test_xx | head -5 | cut -c1-150
  [ $a != 0 ] && head -5 "$w/out0"
  cd /; rm -rf "$w"
}
for i in "$@"; do (one "$i"); done
