#!/bin/bash
# rebuild engine and native replay binary
. /verif/symgo/env.sh
set -e
/verif/gen_all.sh
cd /verif/harness && go vet ./h 2>&1 | grep -v "possible misuse\|^#" | head; go build -o /verif/bin/native ./native
cd /verif/symgo && go build -o /verif/bin/symgo .
