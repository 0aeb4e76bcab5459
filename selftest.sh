#!/bin/sh
# Determinism: the digests (hash of the complete event log) of N seeds per property must not depend on the process or PYTHONHASHSEED.
cd "$(dirname "$0")" || exit 2
N=${1:-100}
PY=/opt/venv/bin/python
T=$(mktemp -d)
rc=0
for f in sim/props/c*.py; do
  P=$(basename "$f" .py | tr c C)
  for h in 0 1 77; do PSPSIM=1 PYTHONHASHSEED=$h OMP_NUM_THREADS=1 "$PY" -m sim.runner digests "$P" "$N" > "$T/$P.$h" 2>/dev/null & done
  wait
  if cmp -s "$T/$P.0" "$T/$P.1" && cmp -s "$T/$P.0" "$T/$P.77" && [ "$(wc -l < "$T/$P.0")" = "$N" ]; then echo "$P: $N seeds x 3 processes identical"
  else echo "$P: NOT DETERMINISTIC"; diff "$T/$P.0" "$T/$P.1" | head -5; rc=1; fi
done
rm -r "$T"
exit $rc
