#!/bin/bash
# check.sh <property>: builds the simulator from /repo's working tree and runs
# the property's check. Tier and seed come from VERIF_TIER and VERIF_SEED.
cd "$(dirname "$0")" || exit 4
if [ "$1" = C07 ]; then export VERIF_RACE=1; fi
bash build.sh > .build.log 2>&1 || { cat .build.log >&2; echo "error: build failed" >&2; exit 4; }
exec ./.build/sim check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -dir .
