#!/bin/sh
# check.sh PROPERTY [quick|thorough]: decide one property on the current tree of /repo.
cd "$(dirname "$0")/sim" || exit 3
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
bin=$(mktemp -d) || exit 3
trap 'rm -rf "$bin"' EXIT INT TERM
go build -o "$bin/simctl" ./cmd/simctl || exit 3
"$bin/simctl" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
