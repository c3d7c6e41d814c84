#!/bin/bash
# Builds every check once, offline, so that the Go build cache is warm; each check builds again what it runs.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
cd "$V/mc"
go build -buildvcs=false ./...
