#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property for /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
exec "$GOSYM" check "$1" "${2:-${VERIF_TIER:-quick}}"
