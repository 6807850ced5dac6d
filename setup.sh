#!/bin/bash
# Builds the symbolic engine from the committed sources.
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
export GOPROXY=off GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=readonly
unset GOROOT
tmp=$(mktemp ../bin/gosym.XXXXXX)
go build -o "$tmp" .
chmod 755 "$tmp"
mv -f "$tmp" ../bin/gosym
