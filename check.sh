#!/bin/bash
# check.sh ID: decides one property (VERIF_TIER=quick|thorough). check.sh replay FILE: replays a report.
set -u
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOSYM_VERIF=$PWD
mkdir -p .bin evidence
bin=$(mktemp "$PWD/.bin/gosym.XXXXXX") || exit 2
trap '/bin/rm -f "$bin"' EXIT
(cd engine && go build -o "$bin" .) >&2 || exit 2
case ${1:-} in
replay) "$bin" replay "$2" ;;
setup) exit 0 ;;
run) shift; "$bin" run "$@" ;;
*) "$bin" check "$1" ;;
esac
