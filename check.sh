#!/bin/bash
# check.sh ID: build the analyser from the committed sources and decide one
# property of /repo's current working tree.
H=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off CGO_ENABLED=0
T=$(mktemp -d /tmp/cxoverif.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
(cd "$H/tool" && go build -o "$T/cxoverif" .) || { echo "the analyser does not build"; exit 2; }
cd "$H" && "$T/cxoverif" -p "$1" -repo "${CXO_REPO:-/repo}" -verif "$H"
