#!/bin/bash
# Builds the framework once (warms the build cache in .build/).
cd "$(dirname "$0")" || exit 1
./build.sh plain && ./build.sh sched && ./build.sh race
