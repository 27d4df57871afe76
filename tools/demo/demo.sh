#!/bin/bash
# run with cwd = the repository; runs demo_test.go in package @PKG@ through an overlay
D=$(cd "$(dirname "$0")" && pwd)
PKG=@PKG@
T=$(mktemp -d /tmp/demo.XXXXXX)
export HOME=${HOME:-/root} GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
cp go.mod "$T/m.mod" && cp "$D/go.sum" "$T/m.sum"
export GOFLAGS="-mod=mod -modfile=$T/m.mod"
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go","%s/%s/zz_demo_util_test.go":"%s/util_test.go"}}' "$PWD" $PKG "$D" "$PWD" $PKG "$D" > "$T/overlay.json"
timeout 280 go test -overlay "$T/overlay.json" -run '^TestDemo$' -count=1 -vet=off ./$PKG
R=$?
rm -f "$T/overlay.json" "$T/m.mod" "$T/m.sum"
rmdir "$T"
exit $R
