#!/bin/bash
# Refactorings that keep the behaviour: every check must stay quiet on them.
# usage: tools/benign.sh [name ...]      (names of tools/benign/*.diff; default all)
cd "$(dirname "$0")/.." || exit 2
props="${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13}"
names="$*"; [ -n "$names" ] || names=$(ls tools/benign | sed 's/\.diff$//')
rc=0
for n in $names; do
  w=$(mktemp -d /tmp/benign.XXXXXX)
  cp -a /repo/src "$w/src" && (cd "$w" && git init -q . && git apply --include='src/*' "$OLDPWD/tools/benign/$n.diff") || exit 2
  for p in $props; do
    out=$(CVI_SIM_REPO="$w" python3 check.py "$p" --no-evidence 2>&1); r=$?
    [ $r = 0 ] || rc=1
    echo "$n $p exit=$r $(echo "$out" | grep -v '^note' | head -1 | cut -c1-200)"
  done
  rm -rf "$w"
done
exit $rc
