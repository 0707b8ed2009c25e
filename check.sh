#!/bin/bash
# check.sh ID [args]: rebuild everything from /repo's working tree, then search.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
source ./build.sh || { echo "build failed" >&2; exit 2; }
exec target/release/dst check "$@" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}"
