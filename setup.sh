#!/bin/sh
# builds the SSA dumper and warms the Go build cache; every check builds whatever is missing itself
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p .build
(cd tools/ssadump && go build -o ../../.build/ssadump .) || exit 1
(cd harness && go build -gcflags=all=-d=checkptr=0 -o ../.build/harness .) || exit 1
(cd harness && go build -race -gcflags=all=-d=checkptr=0 -o ../.build/harness-race .) || true
exit 0
