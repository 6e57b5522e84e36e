#!/bin/bash
# run.sh <property> [tier]: builds the engine when it is missing and decides one property against /repo.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
BIN="$V/bin/gosym"
build() {
  mkdir -p "$V/bin"
  (cd "$V/engine" && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local go build -o "$BIN.tmp.$$" . && mv "$BIN.tmp.$$" "$BIN")
}
stale=0
if [ ! -x "$BIN" ]; then stale=1; else
  for f in "$V"/engine/*.go; do [ "$f" -nt "$BIN" ] && stale=1; done
fi
if [ $stale = 1 ]; then build || { echo "engine build failed" >&2; exit 2; }; fi
if [ "$1" = "--build" ]; then exit 0; fi
ID=$1; shift
exec "$BIN" -verif "$V" -repo "${VERIF_REPO:-/repo}" ${1:+-tier "$1"} "$ID"
