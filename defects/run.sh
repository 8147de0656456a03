#!/bin/sh
# run.sh [test-regexp]: run the defect demonstrations against /repo.
here=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
echo "{\"Replace\":{\"${REPO:-/repo}/defects_verif_test.go\":\"$here/defects_verif_test.go\"}}" > "$o"
cd "${REPO:-/repo}" && GOFLAGS=-mod=mod GOPROXY=off go test ${RACE:+-race} -vet=off -count=1 -timeout 60s -overlay "$o" -run "${1:-TestDefect}" -v . 
rc=$?; rm -f "$o"; exit $rc
