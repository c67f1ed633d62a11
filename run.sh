#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property from /repo's current source.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly CGO_ENABLED=0
here=$PWD
if [ ! -x bin/vtool ] || [ -n "$(find tool -maxdepth 1 -name '*.go' -newer bin/vtool -print -quit)" ]; then
	./setup.sh || exit 2
fi
# cwd outside the repository: nothing is written there
exec bin/vtool -repo "${VERIF_REPO:-/repo}" -prop "$1" -tier "${2:-quick}" -out "$here"
