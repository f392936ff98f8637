#!/bin/bash
# check.sh PROPERTY [quick|thorough]   |   check.sh replay FILE
V=$(cd "$(dirname "$0")" && pwd)
"$V/build.sh" || { echo "build failed"; exit 3; }
export VERIF_DIR=$V SIM_SHIM=$V/target/libsim.so SIM_PY=$V/sim/py POS_BIN=$V/target/repo/release/posidonius
export VERIF_SEED=${VERIF_SEED:-1}
if [ "$1" = replay ]; then exec "$V/target/sim/release/posidonius-sim" replay "$(realpath "$2")"; fi
exec "$V/target/sim/release/posidonius-sim" check "$1" "${2:-${VERIF_TIER:-quick}}"
