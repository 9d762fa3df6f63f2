#!/bin/bash
# Compiles the harness once (plain and race), which also fills the build cache.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
cd "$(dirname "$0")/harness" || exit 1
go build -buildvcs=false -o /dev/null ./cmd/vlib || exit 1
[ -d cmd/vnet ] && { go build -buildvcs=false -o /dev/null ./cmd/vnet && go build -race -buildvcs=false -o /dev/null ./cmd/vnet || exit 1; }
exit 0
