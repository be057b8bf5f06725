#!/bin/bash
# Runs demo_test.go inside the package under test, by an overlay; nothing is written to the repository.
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/go/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
PKG=mpd
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
echo "{\"Replace\": {\"$PWD/$PKG/zz_demo_test.go\": \"$D/demo_test.go\"}}" > "$T/overlay.json"
go test -vet=off -count=1 -overlay "$T/overlay.json" -run '^TestZZDemo$' ./$PKG
