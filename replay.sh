#!/bin/bash
# replay.sh FILE: runs a replay file against /repo's current tree;
# exit 1 when it fails again in the same way, 0 when it does not.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$here/build.sh" programs || exit 2
export DSIM_VERIF="$here"
exec "$here/target/sim/release/dsim" replay --file "$1"
