#!/bin/bash
# One seed is one execution: per-run digests of event logs and scheduler trails must not
# depend on repetition, number of workers or hash seed.
# usage: tools/determinism.sh [runs-per-property] [seeds...]
cd "$(dirname "$0")/.." || exit 2
runs=${1:-120}; shift
seeds="${*:-1 2 3}"
w=$(mktemp -d /tmp/determinism.XXXXXX)
bad=0; compared=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13; do
  n=$runs
  [ $p = C10 ] && n=16
  for s in $seeds; do
    i=0
    for cfg in "8 0" "8 0" "3 0" "1 0" "8 1" "8 77"; do
      set -- $cfg; i=$((i + 1))
      [ "$1" = 1 ] && m=$((n / 3)) || m=$n
      CVI_SIM_HASHSEED=$2 python3 check.py $p --seed $s --runs $m --workers $1 --log --no-evidence 2>&1 \
        | grep -v '^note\|held on' > "$w/$i"
      if [ $i -gt 1 ]; then
        head -n $(wc -l < "$w/$i") "$w/1" | cmp -s - "$w/$i" || { echo "DIFFERENT $p seed=$s workers=$1 hashseed=$2"; bad=1; }
        compared=$((compared + $(wc -l < "$w/$i")))
      fi
    done
  done
  echo "$p done"
done
rm -rf "$w"
echo "compared $compared run digests, different: $bad"
exit $bad
