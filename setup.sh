#!/bin/bash
# builds the harness once, so that later builds find compiled dependencies in Go's cache
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GOSUMDB=off CGO_ENABLED=1
cd "$(dirname "$0")/harness" || exit 1
bin=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
trap 'rm -rf "$bin"' EXIT
go1.27 build -o "$bin/harness" . && go1.27 build -race -o "$bin/harness-race" .
