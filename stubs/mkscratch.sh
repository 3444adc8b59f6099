#!/bin/bash
# mkscratch.sh DEST [SRC]: buildable copy of the repository against the stand-ins.
set -e
D=$1; S=${2:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$D"; (cd "$S" && tar cf - --exclude=.git --exclude=go.mod --exclude=go.sum .) | tar xf - -C "$D"
cat > "$D/go.mod" <<M
module github.com/skycoin/cxo

go 1.23

require (
	github.com/DiSiqueira/GoTree v0.0.0
	github.com/boltdb/bolt v1.3.1
	github.com/go-xorm/xorm v0.0.0
	github.com/kr/pretty v0.0.0
	github.com/mattn/go-sqlite3 v0.0.0
	github.com/peterh/liner v0.0.0
	github.com/skycoin/net v0.0.0
	github.com/skycoin/skycoin v0.0.0
)

replace (
	github.com/DiSiqueira/GoTree => $H/github.com/DiSiqueira/GoTree
	github.com/go-xorm/xorm => $H/github.com/go-xorm/xorm
	github.com/kr/pretty => $H/github.com/kr/pretty
	github.com/mattn/go-sqlite3 => $H/github.com/mattn/go-sqlite3
	github.com/peterh/liner => $H/github.com/peterh/liner
	github.com/skycoin/net => $H/github.com/skycoin/net
	github.com/skycoin/skycoin => $H/github.com/skycoin/skycoin
)
M
# the repository's own test helpers use an older SignHash signature
sed -i 's/r\.Sig = cipher\.SignHash(/r.Sig, _ = cipher.SignHash(/' "$D/data/tests/roots.go" "$D/data/data_test.go"
cat > "$D/go.sum" <<'M'
github.com/boltdb/bolt v1.3.1 h1:JQmyP4ZBrce+ZQu0dY660FMfatumYDLun9hBCUVIkF4=
github.com/boltdb/bolt v1.3.1/go.mod h1:clJnj/oiGkjum5o1McbSZDSLxVThjynRyGBgiAx27Ps=
M
