#!/bin/bash
# builds the engine and warms the compiler's cache for the packages under test
cd "$(dirname "$0")" || exit 1
./run.sh build || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
(cd /repo && go build ./... ) || true
exit 0
