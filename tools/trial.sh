#!/bin/bash
# usage: trial.sh SEED|PATCHFILE [PROP...]: run checks against a copy of /repo with the change, in a scratch directory.
B=${TRIAL_DIR:-/tmp/trial}
S=$1; shift
if [ -f "$S" ]; then PF=$S; else PF=/verif/seeded/$S/patch.diff; fi
P=${*:-$(python3 -c "import json,sys;print(json.load(open('$(dirname "$PF")/meta.json'))['property'])")}
. /verif/symgo/env.sh
rm -rf "$B/repo" "$B/verif"; mkdir -p "$B/verif/bin" "$B/verif/evidence"
cp -a /repo "$B/repo"; cp -a /verif/harness /verif/symgo /verif/known_findings.txt "$B/verif/"
cd "$B/repo" && git checkout -q -- . && git apply "$PF" || exit 9
sed -i "s#=> /repo#=> $B/repo#" "$B/verif/harness/go.mod"
cd "$B/verif/symgo" && go build -o ../bin/symgo . || exit 9
cd "$B/verif/harness" && go build -o ../bin/native ./native || exit 9
for p in $P; do
	N=native
	if [ $p = C25 ] || grep -rqE '^\s*go (func|[a-zA-Z_.]+\()' --include=*.go --exclude=*_test.go "$B"/repo/mk*; then
		[ -f ../bin/native-race ] || CGO_ENABLED=1 go build -race -o ../bin/native-race ./native; N=native-race
		export GORACE="halt_on_error=1 exitcode=66"
	fi
	s=$(date +%s)
	"$B/verif/bin/symgo" -prop $p -verif "$B/verif" -native "$B/verif/bin/$N" ${JOBS:+-j $JOBS} > "$B/log.$p" 2>&1; r=$?
	echo "$(basename "$(dirname "$PF")") $p exit $r $(( $(date +%s)-s ))s: $(grep -m1 'real code' "$B/log.$p") | $(tail -1 "$B/log.$p")"
done
