#!/bin/bash
# usage: run.sh ID [quick|thorough]     (VERIF_SEED, VERIF_TIER, VERIF_CASE honoured)
# Builds the harness against /repo's current working tree and runs one check.
set -u
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOCACHE=${VERIF_GOCACHE:-/tmp/verif-gocache}
RACE=
case " $(cat "$HERE/harness/race.list" 2>/dev/null) " in *" $ID "*) RACE=1;; esac
OUT=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 2
trap 'rm -rf "$OUT"' EXIT
if [ -n "$RACE" ]; then
  export CGO_ENABLED=1
  BF="-race"
else
  export CGO_ENABLED=0
  BF=""
fi
if ! (cd "$HERE/harness" && go build $BF -o "$OUT/harness" . && { [ "$ID" != P23 ] || go build -o "$OUT/pdfer" github.com/benedoc-inc/pdfer/cmd/pdfer; }) 2>"$OUT/build.log"; then
  cat "$OUT/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
export TMPDIR=$OUT
"$OUT/harness" run "$ID" "$TIER" "$SEED" "$HERE" ${VERIF_CASE:-}
exit $?
