#!/bin/bash
# Build the analyzer once, offline, so that the build cache is warm.
cd "$(dirname "$0")/analyzer" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
go build -trimpath -o /dev/null .
