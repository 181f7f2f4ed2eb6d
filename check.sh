#!/bin/bash
# check.sh PROPERTY: rebuilds the simulator from /repo's working tree and searches for violations of PROPERTY.
# VERIF_SEED (default 1) seeds every random choice; VERIF_TIER=thorough multiplies the number of runs.
set -u
id=$1
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
cd "$here/sim" || exit 2
case $id in
    C24|C25|C26|C27|C28|C31|C34) pkg=simremote ;;
    *) pkg=simlocal ;;
esac
"$here/sim/build.sh" $pkg || { echo "check of $id: the build failed"; exit 2; }
exec "$here/sim/target/$pkg/release/$pkg" check "$id" --seed "${VERIF_SEED:-1}" --tier "${VERIF_TIER:-quick}" \
    --replays "$here/replays" --evidence "$here/evidence/$id.json" --known "$here/known_findings.json"
