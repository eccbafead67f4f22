#!/bin/bash
# Warms the build cache: builds the monitors, plain, with step counters and with the race detector.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
cd "$here/harness" || exit 1
tmp="$(mktemp -d /tmp/geoql-setup.XXXXXX)" || exit 1
trap 'rm -rf "$tmp"' EXIT
go vet . && go build -o "$tmp/plain" . && go run ./instr /repo "$tmp/o" && go build -tags vcov -overlay "$tmp/o/overlay.json" -o "$tmp/steps" . &&
	CGO_ENABLED=1 go build -race -o "$tmp/race" .
