#!/bin/bash
# bash tools/seeds.sh PROP FROM TO [tier]   quietness over several seeds
cd "$(dirname "$0")/.."
for s in $(seq "$2" "$3"); do
  VERIF_SEED=$s bash run.sh "$1" "${4:-quick}" > /tmp/seeds.$1.$s.log 2>&1
  r=$?
  echo "$1 seed $s -> exit $r; $(tail -1 /tmp/seeds.$1.$s.log)"
  if [ $r -ne 0 ]; then tail -30 /tmp/seeds.$1.$s.log; fi
done
