#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo's working tree and explore.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
V="$(cd "$(dirname "$0")/.." && pwd)"; export VERIF_BUILD="${VERIF_BUILD:-$V/build}"
mkdir -p "$V/evidence" "$VERIF_BUILD/replays"
if ! "$V/engine/build.sh" all > "$VERIF_BUILD/build.$ID.log" 2>&1; then tail -40 "$VERIF_BUILD/build.$ID.log" >&2; echo "check $ID: build failed" >&2; exit 2; fi
if [ "$TIER" = thorough ]; then B=${MC_BUDGET:-800}; else B=${MC_BUDGET:-420}; fi
exec "$VERIF_BUILD/mc" --prop "$ID" --tier "$TIER" --build "$VERIF_BUILD" --replaydir "$VERIF_BUILD/replays" --known "$V/known-findings.txt" \
  --out "$V/evidence/$ID.json" --jobs "${MC_JOBS:-8}" --budget "$B"
