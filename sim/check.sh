#!/bin/bash
# check.sh <property>: rebuild the simulator from /repo's working tree, then search.
set -u
here=$(cd "$(dirname "$0")" && pwd); root=$(dirname "$here")
export VERIF_DIR=$root DEVILSIM_SAMPLES=$here/samples
mkdir -p "$root/build" "$root/evidence"
if ! flock "$root/build/.lock" make -s -C "$here" -j8 B="$root/build" >"$root/build/make.log" 2>&1; then
  echo "ERROR: the simulator does not build"; tail -40 "$root/build/make.log"; exit 2
fi
exec "$root/build/devilsim" check "$1"
