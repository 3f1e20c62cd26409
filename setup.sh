#!/bin/bash
# builds the analyzer once (checks rebuild it themselves; this warms the build cache)
cd "$(dirname "$0")/analyzer" || exit 1
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod
mkdir -p ../.build ../evidence && go build -o ../.build/analyzer.setup . && rm -f ../.build/analyzer.setup
