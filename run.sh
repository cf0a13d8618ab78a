#!/bin/bash
# run.sh ID [-case PART/N]: rebuilds finch and the harness from /repo's current
# working tree and runs the check of property ID.
export VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
export VERIF_BUILD="$VERIF_ROOT/.build"
mkdir -p "$VERIF_BUILD" || exit 2
bash "$VERIF_ROOT/build.sh" "$1" || { echo "HARNESS ERROR: build failed"; exit 2; }
exec "$VERIF_BUILD/check" "$@"
