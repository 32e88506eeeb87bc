#!/bin/bash
# usage: tools/multi.sh "C06 C07" "1 2 3" [scale]   - quietness runs over several seeds, summaries only
cd "$(dirname "$0")/.." || exit 1
for p in $1; do for s in ${2:-1 2 3}; do
  out=$(VERIF_SEED=$s ./check.sh "$p" --scale "${3:-1}" 2>&1); rc=$?
  echo "seed=$s rc=$rc $(grep "^$p:" <<<"$out")"
  grep -E "FAILED|key=|ERROR|KNOWN-FINDING" <<<"$out" | cut -c1-${4:-700} | head -${5:-12}
done; done
