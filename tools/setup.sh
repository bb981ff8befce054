#!/bin/bash
# Builds the simulator once, to show that it builds and to warm Go's build cache.
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/tools/build.sh"
build_sim all || exit 1
rm -rf "$W"
