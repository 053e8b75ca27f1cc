#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
cd "$(dirname "$0")/mc" || exit 1
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -d "$d" ] && PATH=$d:$PATH; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off CGO_ENABLED=0
go build ./... || exit 1
CGO_ENABLED=1 go build -race -o /dev/null ./cmd/check
