#!/bin/bash
# check.sh ID [quick|thorough]
cd "$(dirname "$0")/.." || exit 2
./bin/build.sh || exit 2
exec ./target/debug/pbt check "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}"
