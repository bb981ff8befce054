#!/bin/bash
# Determinism of the simulator: runs every scenario at several batch sizes and
# worker counts and compares the event-log hashes run by run.
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/tools/build.sh"
build_sim all || exit 2
"$SIM" selftest -dir "$W" -race "$RACE" "$@"
RC=$?
rm -rf "$W"
exit $RC
