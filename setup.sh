#!/bin/bash
# Builds the framework once (also compiles the dependencies from the offline cargo cache).
cd "$(dirname "$0")" || exit 2
. ./build.sh
build_harness "$PWD/target" && build_harness "$PWD/target-sync" --features sync && build_harness "$PWD/target-extra" --features extra
