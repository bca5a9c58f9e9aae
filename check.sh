#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra gosym flags]: builds the executor if needed and runs the check of one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOSYM_VERIF="$here"
mkdir -p "$here/.bin"
( cd "$here/engine" && go build -mod=readonly -o "$here/.bin/gosym" . ) || exit 3
[ "${1:-}" = build ] && exit 0
prop="$1"; tier="${2:-quick}"; shift; shift 2>/dev/null || true
exec "$here/.bin/gosym" check -prop "$prop" -tier "$tier" "$@"
