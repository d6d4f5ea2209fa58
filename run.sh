#!/bin/bash
# Runs one check: run.sh ID [-replay FILE]
# Builds the harness (and, where a check needs them, the race-instrumented harness and the CLI) from /repo's working tree.
# VERIF_SEED seeds every random choice, VERIF_TIER is quick or thorough.
set -u
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GODEBUG=
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: run.sh ID}
shift
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
WORK=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
trap 'exit 2' INT TERM
ulimit -c 0
FLAGS=()
case $ID in
C15) FLAGS=(-race) ;;
esac
cd "$ROOT/harness" || exit 2
go build "${FLAGS[@]}" -mod=readonly -buildvcs=false -o "$WORK/vh" . || { echo "check error: the harness does not build" >&2; exit 2; }
case $ID in
C21 | C24)
	(cd /repo && go build -mod=readonly -buildvcs=false -o "$WORK/json-dom" .) || { echo "check error: the CLI does not build" >&2; exit 2; }
	export VH_CLI=$WORK/json-dom
	;;
esac
mkdir "$WORK/scratch"
"$WORK/vh" check "$ID" -tier "$TIER" -seed "$SEED" -root "$ROOT" -scratch "$WORK/scratch" "$@"
