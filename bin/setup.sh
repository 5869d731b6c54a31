#!/bin/bash
# Warm the Go build cache and parse the specifications; the checks build what they need themselves.
set -e
cd "$(dirname "$0")/../harness"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
d=$(mktemp -d)
go build -o "$d/driver" ./cmd/driver
rm -rf "$d"
