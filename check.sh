#!/bin/bash
# check.sh PROPERTY: builds the simulator around /repo's working tree and searches for a violation.
cd "$(dirname "$0")" || exit 2
P=$1
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
./build.sh || exit 2
T=$(mktemp -d /tmp/sim1cd.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p evidence replays
if [ "$TIER" = thorough ]; then A="--runs 4000000 --wall ${VERIF_WALL:-780}"; else A="--wall ${VERIF_WALL:-90}"; fi
.build/simtool check --property "$P" --seed "$SEED" --tier "$TIER" $A --tmp "$T" \
	--known KNOWN_FINDINGS --evidence "evidence/$P.json" --replays replays
