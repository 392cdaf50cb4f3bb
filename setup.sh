#!/bin/bash
# Compiles the harness once so the checks start from a warm build cache.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOCACHE=${VERIF_GOCACHE:-/tmp/verif-gocache}
T=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf "$T"' EXIT
cd "$HERE/harness" && CGO_ENABLED=0 go build -o "$T/h" . && "$T/h" list
