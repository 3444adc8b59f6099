#!/bin/bash
# setup.sh: build the analyser once, so that the build cache is warm
H=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off CGO_ENABLED=0
cd "$H/tool" && go build -o /dev/null . && go vet .
