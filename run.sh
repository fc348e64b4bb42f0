#!/bin/bash
# run.sh ID [flags]: decides one property; run.sh build: builds the engine.
cd "$(dirname "$0")" || exit 2
V=$PWD
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
if [ ! -x bin/gosym ] || [ -n "$(find gosym -name '*.go' -newer bin/gosym 2>/dev/null | head -1)" ]; then
  mkdir -p bin
  (cd gosym && go build -o "$V/bin/gosym.$$" .) && mv "bin/gosym.$$" bin/gosym || exit 2
fi
[ "$1" = build ] && exit 0
id=$1; shift
exec bin/gosym -verif "$V" -repo "${VERIF_REPO:-/repo}" "$@" "$id"
