#!/bin/bash
# Builds every conformance driver once (the checks build their own copy) and
# makes sure the specifications parse.
cd "$(dirname "$0")" || exit 1
export HOME=/root PATH=/usr/local/go/bin:$PATH GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
t=$(mktemp -d) && cp harness/go.mod harness/go.sum "$t"/ || exit 1
(cd harness && go build -modfile "$t/go.mod" -o "$t/" ./cmd/...)
rc=$?
rm -rf "$t"
exit $rc
