#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Decides one property for the current source of /repo. Builds the checker
# first when it is missing or older than its source.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export PATH=/usr/local/go/bin:$PATH HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
BIN=$V/bin/checker
if [ ! -x "$BIN" ] || [ -n "$(find checker -name '*.go' -newer "$BIN" -print -quit)" ]; then
  mkdir -p bin
  (cd checker && go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN") || { echo "checker build failed"; exit 2; }
fi
[ "$1" = build ] && exit 0
exec "$BIN" -p "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${VERIF_REPO:-/repo}" -verif "$V"
