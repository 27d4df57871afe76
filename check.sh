#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (run in /verif)
# Rebuilds the engine and the native replay binary from the current sources (incl. /repo's
# working tree) and decides one property.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/symgo/env.sh"
P=$1; T=${2:-${VERIF_TIER:-quick}}
mkdir -p "$V/bin" "$V/evidence"
cd "$V/symgo" && go build -o "$V/bin/symgo" . || { echo "engine does not build"; exit 2; }
NAT="$V/bin/native"
RACE=
# counterexamples that are interleavings are replayed under the race detector
if [ "$P" = C25 ] || grep -rqE --include='*.go' --exclude='*_test.go' '(^|[[:space:]{;])go[[:space:]]+[A-Za-z_(]|\.Go\(' /repo/mkrlwe /repo/mkckks /repo/mkbfv /repo/cnn; then
  NAT="$V/bin/native-race"; RACE=-race
  export GORACE="halt_on_error=1 exitcode=66" CGO_ENABLED=1
fi
if ! (cd "$V/harness" && go build $RACE -o "$NAT" ./native) 2>"$V/bin/native.err"; then
  cat "$V/bin/native.err"; NAT=
fi
B=420s; [ "$T" = thorough ] && B=3000s
exec "$V/bin/symgo" -prop "$P" -tier "$T" -verif "$V" -native "$NAT" -budget "${BUDGET:-$B}"
