#!/bin/bash
# setup_cmd: build the engine (checks build it themselves when it is missing).
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
"$GOSYM" version >/dev/null 2>&1 || true
echo "engine ready: $GOSYM"
