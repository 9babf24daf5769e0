#!/bin/bash
# Warms the build cache; every check builds what it needs again by itself.
set -e
cd "$(dirname "$0")"
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
unset GOROOT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=1
cp harness/go.mod harness/go.sum "$scratch"/
cd harness
go test -modfile="$scratch/go.mod" -vet=off -c -o "$scratch/checks.test" ./checks
go build -modfile="$scratch/go.mod" -o "$scratch/" github.com/google/capslock/cmd/capslock github.com/google/capslock/cmd/capslock-git-diff
go build -race -modfile="$scratch/go.mod" -o "$scratch/" ./cmd/conc
