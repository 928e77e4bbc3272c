#!/bin/sh
# Warms the Go build cache and checks that the tools are there; no check depends on what this leaves behind.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d)
(cd harness && go build -o "$t/driver" .)
rm -rf "$t"
