#!/bin/sh
# check.sh PROPERTY: build the analyzer from /verif/sa and decide PROPERTY on
# /repo's current working tree. Nothing of /repo is compiled or run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
mkdir -p "$here/.bin" "$here/evidence"
(cd "$here/sa" && GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o "$here/.bin/sojucheck.$$" . && mv "$here/.bin/sojucheck.$$" "$here/.bin/sojucheck") || { echo "cannot build the analyzer" >&2; exit 2; }
[ "$1" = build ] && exit 0
exec "$here/.bin/sojucheck" -property "$1" -repo "${REPO:-/repo}" -verif "$here"
