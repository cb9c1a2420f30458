#!/bin/bash
# Same seeds, different worker counts and hash seed: per-run digests must be identical.
cd "$(dirname "$0")/.." || exit 3
T=$(mktemp -d); rc=0; N=${1:-64}
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16; do
  ./check.sh $p --seed 11 --runs $N --cap 600 --workers 8 --no-evidence --digests $T/a >/dev/null
  ./check.sh $p --seed 11 --runs $N --cap 600 --workers 3 --no-evidence --digests $T/b >/dev/null
  VERIF_HASHSEED=7 ./check.sh $p --seed 11 --runs $N --cap 600 --workers 5 --no-evidence --digests $T/c >/dev/null
  if cmp -s $T/a $T/b && cmp -s $T/a $T/c && [ "$(wc -l < $T/a)" = $N ]; then echo "$p: $N runs identical"; else echo "$p: DIFFERENT"; diff $T/a $T/b | head -4; diff $T/a $T/c | head -4; rc=1; fi
done
rm -rf "$T"; exit $rc
