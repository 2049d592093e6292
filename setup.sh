#!/bin/sh
# setup.sh: build the framework once, to show that it builds here.
cd "$(dirname "$0")/sim" || exit 1
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
bin=$(mktemp -d) || exit 1
trap 'rm -rf "$bin"' EXIT INT TERM
go build -o "$bin/simctl" ./cmd/simctl && "$bin/simctl" -keep "$bin/workers"
