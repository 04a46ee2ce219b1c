#!/bin/bash
# check.sh PROPERTY: build the analyzer from /verif/analyzer and decide one
# property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
root=$PWD
prop=$1
out=$(mktemp -d /tmp/lcan.XXXXXX) || exit 2
trap 'rm -rf "$out"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
if ! (cd analyzer && go build -trimpath -o "$out/an" .) >"$out/log" 2>&1; then
	cat "$out/log"
	echo "check.sh: the analyzer does not build"
	exit 2
fi
"$out/an" -prop "$prop" -repo /repo -out "$root/evidence" -known "$root/known-findings.txt"
