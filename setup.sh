#!/bin/bash
# Builds everything once, so that the checks' own builds find the build cache warm.
set -eu
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GODEBUG=
cd "$(dirname "$0")/harness"
W=$(mktemp -d /tmp/vh.XXXXXX)
trap 'rm -rf "$W"' EXIT
go build -mod=readonly -buildvcs=false -o "$W/vh" .
go build -race -mod=readonly -buildvcs=false -o "$W/vhr" .
cd /repo
go build -mod=readonly -buildvcs=false -o "$W/cli" .
