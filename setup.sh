#!/bin/bash
# Builds the analyser from the committed, vendored sources. Offline.
cd "$(dirname "$0")/tool" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=vendor CGO_ENABLED=0
mkdir -p ../bin ../evidence
go build -o ../bin/vtool . 
