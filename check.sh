#!/bin/bash
# usage: check.sh PROPERTY [extra arguments of "sim run"]
# Builds the simulator against /repo's working tree and runs one check.
# exit 0: held; 1: VIOLATION line printed; 2: trouble with the check itself.
set -u
V=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: check.sh PROPERTY}; shift
. "$V/tools/build.sh"
T0=$(date +%s.%N)
build_sim "$ID" || exit 2
T1=$(date +%s.%N)
"$SIM" run -prop "$ID" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -dir "$W" -verif "$V" \
  -race "$RACE" -sites "$W/instr/sites.json" -novel "$W/instr/novel.json" -mode "$MODE" -build-s "$(echo "$T1 - $T0" | bc)" "$@"
RC=$?
rm -rf "$W"
exit $RC
