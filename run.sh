#!/bin/bash
# Rebuilds the harness against /repo's working tree and runs the check of one property.
# usage: run.sh ID [quick|thorough]     (VERIF_SEED, VERIF_TIER from the environment)
set -u
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$PWD
export VERIF_DIR
[ $# -ge 2 ] && export VERIF_TIER=$2
. ./build.sh
if [ "$1" = C27 ]; then
  # The build with the feature for thread safety.
  build_harness "$PWD/target-sync" --features sync || exit 2
  exec ./target-sync/debug/vh check "$1"
fi
if [ "$1" = C30 ]; then
  # The build with the features for extended ICU data and logging.
  build_harness "$PWD/target-extra" --features extra || exit 2
  exec ./target-extra/debug/vh check "$1"
fi
build_harness "$PWD/target" || exit 2
exec ./target/debug/vh check "$1"
