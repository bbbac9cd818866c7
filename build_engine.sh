#!/bin/bash
# Builds the symbolic execution engine (offline) into bin/gosym if it is missing or stale.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod
sum=$(cat engine/*.go engine/go.mod engine/go.sum | sha256sum)
if [ -x bin/gosym ] && [ "$(cat bin/gosym.sum 2>/dev/null)" = "$sum" ]; then exit 0; fi
mkdir -p bin
(cd engine && go build -o "../bin/gosym.$$" .) || exit 2
mv "bin/gosym.$$" bin/gosym
echo "$sum" > bin/gosym.sum
