#!/bin/bash
# Builds the engine from /verif/engine (offline) unless it is up to date; sets GOSYM.
_here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="${VERIF_DIR:-$_here}"
: "${HOME:=/root}"; export HOME
_go=/opt/veriftools/go1.27.3/bin/go
[ -x "$_go" ] || _go=$(command -v go1.27 || command -v go)
GOSYM="$_here/bin/gosym"
mkdir -p "$_here/bin"
_sum=$(cat "$_here"/engine/*.go "$_here"/engine/go.mod | sha256sum | cut -c1-32)
if [ ! -x "$GOSYM" ] || [ "$(cat "$_here/bin/stamp" 2>/dev/null)" != "$_sum" ]; then
  ( cd "$_here/engine" && GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off CGO_ENABLED=0 "$_go" build -o "$GOSYM.$$" . && mv "$GOSYM.$$" "$GOSYM" && echo "$_sum" > "$_here/bin/stamp" ) || return 2 2>/dev/null || exit 2
fi
export GOSYM
