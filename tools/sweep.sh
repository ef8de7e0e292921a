#!/bin/bash
# usage: tools/sweep.sh "<ids>" "<seeds>" tier   (4 at a time)
cd "$(dirname "$0")/.."
tier=${3:-quick}
for p in $1; do for s in $2; do echo "$p $s"; done; done | xargs -P "${PAR:-4}" -L1 bash -c 'out=$(VERIF_SEED=$1 ./run.sh $0 '$tier' 2>&1); rc=$?; echo "$0 seed=$1 rc=$rc $(echo "$out" | tail -4 | cut -c1-600)"'
