#!/bin/bash
# Warms the Go build cache for the simulator (the checks rebuild what they need themselves).
cd "$(dirname "$0")" || exit 1
export GO111MODULE=off GOFLAGS= GOWORK=off GOTOOLCHAIN=local GOPATH=$PWD/sim
mkdir -p .build
go build -o .build/driver.setup zkdst/driver && go build -o .build/instrument.setup zkdst/instrument || exit 1
go build -race std >/dev/null 2>&1
rm -f "$PWD/.build/driver.setup" "$PWD/.build/instrument.setup"
exit 0
