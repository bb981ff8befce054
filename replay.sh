#!/bin/bash
# usage: replay.sh FILE
# Builds the simulator against /repo's working tree and replays one replay file.
# exit 1 and a line "replay: KEY: ..." if the violation appears again, 0 if not.
set -u
V=$(cd "$(dirname "$0")" && pwd)
F=$(readlink -f "${1:?usage: replay.sh FILE}")
. "$V/tools/build.sh"
ID=C00; grep -q '"Race": true' "$F" && ID=all
build_sim "$ID" || exit 2
X=$SIM; [ $ID = all ] && X=$RACE
[ $ID = all ] && export GORACE="log_path=$W/race halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2"
GOMAXPROCS=1 "$X" replay "$F"
RC=$?
rm -rf "$W"
exit $RC
