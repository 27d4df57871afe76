#!/bin/bash
# builds the engine and the native replay binary
V=$(cd "$(dirname "$0")" && pwd)
. "$V/symgo/env.sh"
mkdir -p "$V/bin"
cd "$V/symgo" && go build -o "$V/bin/symgo" . && cd "$V/harness" && go build -o "$V/bin/native" ./native
cd "$V/harness" && CGO_ENABLED=1 go build -race -o "$V/bin/native-race" ./native || echo "no race detector: counterexamples of C25 cannot be replayed"
true
