#!/bin/bash
# Fills the Go build cache so that the first check does not pay for it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOTELEMETRY=off
scratch="$(mktemp -d /tmp/vhsetup.XXXXXXXXXX)" || exit 4
trap 'rm -rf -- "$scratch"' EXIT
cd "$here/harness" || exit 4
cp go.mod go.sum "$scratch/" || exit 4
go build -modfile="$scratch/go.mod" -o "$scratch/" ./cmd/... || exit 5
go build -race -modfile="$scratch/go.mod" -o "$scratch/race" ./cmd/wweb || exit 5
go build -race -modfile="$scratch/go.mod" -o "$scratch/race" ./cmd/wfold || exit 5
