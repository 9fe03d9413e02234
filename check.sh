#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property for the present tree of /repo
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" || exit 3
exec env SIM_VERIF="$V" "$V/.build/sim/release/sim" check --property "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
