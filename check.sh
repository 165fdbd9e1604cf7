#!/bin/bash
# check.sh <property>: builds the verifier and decides the property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
D=$(mktemp -d /tmp/gocvbin.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
(cd gocv && GOFLAGS=-mod=mod go build -o "$D/gocv" .) || { echo "cannot build the verifier"; exit 2; }
TMPDIR="$D" "$D/gocv" check "$1"
