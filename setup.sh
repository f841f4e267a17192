#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
d=$(mktemp -d) && (cd engine && go build -o "$d/vengine" .); rc=$?
rm -rf "$d"
exit $rc
