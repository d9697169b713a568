#!/bin/bash
# ./run.sh <property> [quick|thorough]: builds the analyser from /verif/checker
# and decides the property on /repo's current working tree.
# exit 0: held; exit 1 (with a VIOLATION line): violated or undecided.
cd "$(dirname "$0")" || exit 1
export VERIF_DIR=$PWD
id=$1; tier=${2:-${VERIF_TIER:-quick}}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=0
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export VERIF_TIER=$tier
bin=$(mktemp -d /tmp/unlynxcheck.XXXXXX) || exit 1
trap 'rm -rf "$bin"' EXIT
if ! (cd checker && /opt/veriftools/go1.27.3/bin/go build -o "$bin/unlynxcheck" .) >"$bin/log" 2>&1; then
  cat "$bin/log"
  echo "VIOLATION property=$id replay=checker (the analyser does not build)"
  exit 1
fi
[ "$id" = build ] && exit 0
"$bin/unlynxcheck" "$id" "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "VIOLATION property=$id replay=checker (the analyser ended with status $rc)"
  rc=1
fi
exit $rc
