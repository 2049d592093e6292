#!/bin/sh
# replay.sh FILE [-trace]: execute a replay file on the current tree of /repo.
f=$(realpath "$1") || exit 3
shift
cd "$(dirname "$0")/sim" || exit 3
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
bin=$(mktemp -d) || exit 3
trap 'rm -rf "$bin"' EXIT INT TERM
go build -o "$bin/simctl" ./cmd/simctl || exit 3
"$bin/simctl" -replay "$f" "$@"
