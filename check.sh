#!/bin/bash
# Builds the analyser and runs the check of one property: check.sh <id> [thorough]
cd "$(dirname "$0")/checker" || exit 2
[ "$2" = thorough ] && export VERIF_TIER=thorough
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
bin=$(mktemp -d /tmp/avcheck.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/avcheck" . || exit 2
"$bin/avcheck" check "$1"
