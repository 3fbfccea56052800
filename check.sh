#!/bin/bash
# usage: check.sh check PROP | replay FILE | determinism PROP N   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 3
mkdir -p .build || exit 3
D=$(mktemp -d .build/drv.XXXXXX) || exit 3
trap 'rm -rf "$PWD/$D"' EXIT
GO111MODULE=off GOFLAGS= GOWORK=off GOTOOLCHAIN=local GOPATH=$PWD/sim go build -o "$D/driver" zkdst/driver || exit 3
"$D/driver" "$@"
