#!/bin/bash
# lists the harness functions for native replay
cd "$(dirname "$0")/harness/h" || exit 1
{ echo "package h"; echo; echo "// All lists the harnesses for native replay (generated by gen_all.sh)."; echo "var All = map[string]func(){"
grep -ho '^func [A-Z][0-9]*_[A-Za-z0-9_]*()' *.go | sed 's/^func //; s/()//' | sort | while read f; do echo "	\"$f\": $f,"; done
echo "}"; } > all.go
gofmt -w all.go
