#!/bin/bash
# Builds the simulator once (checks rebuild it from /repo's working tree anyway).
cd "$(dirname "$0")" || exit 1
mkdir -p target
bash harness/build.sh "$PWD/target/sim"
