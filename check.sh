#!/bin/bash
# check.sh PROPERTY quick|thorough: exit 0 held, 1 violated, 2 no answer.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"
tier="${2:-quick}"
case "$id" in A*) programs=programs ;; *) programs= ;; esac
bash "$here/build.sh" $programs || { echo "HARNESS ERROR: build failed"; exit 2; }
export DSIM_VERIF="$here"
cd "$here"
exec "$here/target/sim/release/dsim" check --prop "$id" --tier "$tier" \
    --seed "${VERIF_SEED:-1}" --evidence "$here/evidence/$id.json"
