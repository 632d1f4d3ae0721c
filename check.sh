#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_TIER=quick|thorough)
# builds the explorer against /repo's working tree and runs the exploration of one property
here=$(cd "$(dirname "$0")" && pwd)
want="$1"
. "$here/tools/build.sh" || exit 2
case "$1" in
T*) export PYTHONHASHSEED=0; exec python3 -B "$here/gen/tcheck.py" run "$1" "${VERIF_TIER:-quick}" ;;
esac
exec "$here/target/release/mc" run "$1" "${VERIF_TIER:-quick}" "$here"
