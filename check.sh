#!/bin/bash
# check.sh ID quick|thorough [-replay FILE]
# Builds the check of a property against /repo's working tree and runs it.
set -u
V=$(cd "$(dirname "$0")" && pwd)
ID=$1
TIER=$2
shift 2
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=${CGO_ENABLED:-1}
export VERIF_DIR=$V MC_TIER=$TIER
BIN=$(mktemp -d "${TMPDIR:-/tmp}/mcbin-$ID-XXXXXX") || exit 2
trap 'rm -rf "$BIN"' EXIT
cd "$V/mc" || exit 2
export MC_BIN=$BIN
if [ -f "cmd/${ID,,}/build.sh" ]; then
	# a check that needs more than its own program
	. "./cmd/${ID,,}/build.sh" || exit 2
else
	go build -buildvcs=false -o "$BIN/check" "./cmd/${ID,,}" || exit 2
fi
cd "$V" || exit 2
"$BIN/check" "$@"
