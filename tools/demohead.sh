#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
run() { # run PKGDIR: runs TestSeed of demo.go.txt inside the package
  echo "{\"Replace\":{\"$repo/$1/zz_seed_test.go\":\"$here/demo.go.txt\"}}" >"$t/o.json"
  CONN_TIMEOUT=${CONN_TIMEOUT:-10m} timeout 250 go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestSeed' "./$1"
}
