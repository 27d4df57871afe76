#!/bin/bash
# usage: seed.sh ID PROP PKG(ckks|bfv|rlwe)   with the changed repository in /tmp/sw and
# the demonstration in /tmp/sw_demo/demo_test.go, meta lines needs/breaks in /tmp/sw_demo/meta.txt (2 lines)
# Confirms build, stable tests, demo on base and on the change, runs the property's check and stores the seed.
set -u
ID=$1; PROP=$2; K=$3
PKG=mk$K
S=/verif/seeded/$ID
mkdir -p "$S"
git -C /tmp/sw diff > "$S/patch.diff"
sed "s/@PKG@/$PKG/g" /verif/tools/demo/demo.sh > "$S/demo.sh"; chmod +x "$S/demo.sh"
cp /verif/tools/demo/go.sum "$S/go.sum"; cp /verif/tools/demo/${K}_util.go "$S/util_test.go"; cp /tmp/sw_demo/demo_test.go "$S/demo_test.go"
python3 - "$S" "$PROP" <<'P'
import json,sys
a,b=open('/tmp/sw_demo/meta.txt').read().strip().split('\n')[:2]
json.dump({"property":sys.argv[2],"needs":a,"what_it_breaks":b},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
cd /repo && bash "$S/demo.sh" > /tmp/sw_demo/base.log 2>&1; echo "base: $?"
cd /tmp/sw && go vet ./mkrlwe ./mkckks ./mkbfv 2>&1 | grep -v "^#" | head -3
bash "$S/demo.sh" > /tmp/sw_demo/mut.log 2>&1; echo "mutant: $?"; grep -v "^ok\|^FAIL$\|^---" /tmp/sw_demo/mut.log | head -3
if [ -z "${NOTEST:-}" ]; then
sed -e 's#/repo#/tmp/sw#g' -e 's#/opt/vp/mk-lattigo.mod#/tmp/sw_mod/m.mod#g' /opt/vp/env.sh > /tmp/sw_mod/env.sh; cp /opt/vp/mk-lattigo.sum /tmp/sw_mod/m.sum
(. /tmp/sw_mod/env.sh; cd /tmp/sw; go test -json -vet=off -count=1 -timeout 10m -p 1 ./mkrlwe ./mkckks ./mkbfv > /tmp/sw_mod/log)
echo "tests: pass $(grep -c '"Action":"pass".*"Test"' /tmp/sw_mod/log) fail $(grep -c '"Action":"fail"' /tmp/sw_mod/log)"
fi
