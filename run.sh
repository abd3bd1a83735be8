#!/bin/bash
# run.sh <property>[,<property>...] [quick|thorough]: build the checker from
# /verif/checker (vendored, offline) and run it on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0
mkdir -p "$here/.build"
cd "$here/checker" || exit 2
if ! go build -o "$here/.build/vchecker.$$" . ; then rm -f "$here/.build/vchecker.$$"; exit 2; fi
mv "$here/.build/vchecker.$$" "$here/.build/vchecker"
[ "$1" = none ] && exit 0
cd "$here" || exit 2
exec "$here/.build/vchecker" -repo "${VERIF_REPO:-/repo}" -verif "$here" -property "$1" -tier "${2:-quick}"
