#!/bin/bash
# Usage: ./run.sh PROPERTY...   Decides the properties from /repo's current source.
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}" GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
cd "$(dirname "$0")" || exit 1
V=$PWD
mkdir -p bin evidence
if [ ! -x bin/xtocheck ] || [ -n "$(find analyzer -newer bin/xtocheck -name '*.go' -print -quit)" ]; then
  (cd analyzer && GOFLAGS=-mod=vendor go build -o "$V/bin/xtocheck.$$" . && mv -f "$V/bin/xtocheck.$$" "$V/bin/xtocheck") || { echo "cannot build the analyzer" >&2; exit 2; }
fi
exec bin/xtocheck -repo /repo -verif "$V" "$@"
