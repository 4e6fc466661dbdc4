#!/bin/bash
# Checks that the harness and all its variants build. The checks build what they need themselves; this only fills the
# build cache and reports problems early.
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on
D=$(mktemp -d "${TMPDIR:-/tmp}/rvsetup.XXXXXX") || exit 1
trap 'rm -rf "$D"' EXIT
go build -o "$D/instr" ./instr && go build -o "$D/rv" ./cmd/rv || exit 1
for p in C01 C09 C20; do "$D/rv" builds $p >/dev/null || exit 1; done
echo setup ok
