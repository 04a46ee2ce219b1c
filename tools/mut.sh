#!/bin/bash
# mut.sh PATCH [DEMO]: apply PATCH to a scratch copy of /repo, build, run the
# tests, run DEMO before and after, and run every check on the result.
# Used while developing; no registered check uses it.
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
an=${AN:-/tmp/an}
d=$(mktemp -d /tmp/m/XXXXXX)
trap 'rm -rf "$d"' EXIT
git -C /repo archive HEAD | tar x -C "$d"
cd "$d"
if [ -n "$2" ] ; then ( bash "$2" >/dev/null 2>&1 ) && echo "demo clean: ok" || echo "demo clean: FAILS ($?)"; fi
git apply "$1" 2>/dev/null || patch -p1 -s < "$1" || { echo "PATCH FAILS"; exit 1; }
go build ./... && for f in gen_data.go licenses/getcc.go licenses/getspdx.go; do go build -o /dev/null $f || exit 1; done || { echo "BUILD FAILS"; exit 1; }
if [ -z "$NOTEST" ]; then go test -vet=off -count=1 $(go list -e ./... | grep -v '/licensecheck/old$') >"$d/.test" 2>&1 && echo "tests: ok" || { echo "TESTS FAIL"; grep -- '--- FAIL' "$d/.test" | head -3; }; fi
if [ -n "$2" ] ; then ( bash "$2" >"$d/.demo" 2>&1 ) && echo "demo mutated: NOT FAILING" || { echo "demo mutated: fails as wanted"; [ -n "$V" ] && tail -3 "$d/.demo"; }; fi
$an -prop all -repo "$d" -out "$d/.ev" > "$d/.out" 2>&1
[ -n "$V" ] && grep -v "discharged" "$d/.out"
echo "caught by: $(grep -o 'VIOLATION property=[A-Z0-9]*' "$d/.out" | sed 's/.*=//' | tr '\n' ' ')"
