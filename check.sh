#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds from /repo's working tree and runs the check for property ID.
cd "$(dirname "$0")" || exit 3
. ./env.sh
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p build evidence replays
bash build.sh >build/build.log 2>&1 || { tail -40 build/build.log; echo "the build failed"; exit 3; }
export VERIF_DIR=$V VERIF_SEED=${VERIF_SEED:-1}
exec "$CARGO_TARGET_DIR/debug/ferlium-check" run "$1" "$tier"
